//! A small, genuine pairing-friendly curve used to run the (curve-generic) library many thousands
//! of times per minute.
//!
//! y² = x³ + x over F_q, q = 9223371994911735811 ≡ 3 (mod 4), supersingular, #E = q + 1 = 4r with
//! r = 2305842998727933953 prime (61 bits, 2-adicity 24 so Groth16's FFT domains exist). Embedding
//! degree 2, distortion map (x, y) -> (-x, iy), reduced Tate pairing. G1 and G2 are the same group
//! but distinct Rust types with distinct generators. It offers no security: it is an *algebraically
//! faithful* stand-in (bilinear, non-degenerate, prime order, cofactor 4 so subgroup checks matter).
//! A share of every check runs on BLS12-381 itself.
use ark_ec::{
    models::CurveConfig,
    pairing::{MillerLoopOutput, Pairing, PairingOutput},
    short_weierstrass::{Affine, Projective, SWCurveConfig},
    AffineRepr, CurveGroup,
};
use ark_ff::{
    fields::{Fp64, MontBackend, MontConfig},
    Field, Fp2, Fp2Config, MontFp, One, Zero,
};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};

#[derive(MontConfig)]
#[modulus = "9223371994911735811"]
#[generator = "2"]
pub struct FqConfig;
pub type Fq = Fp64<MontBackend<FqConfig, 1>>;

#[derive(MontConfig)]
#[modulus = "2305842998727933953"]
#[generator = "3"]
pub struct FrConfig;
pub type Fr = Fp64<MontBackend<FrConfig, 1>>;

pub const R_ORDER: u64 = 2305842998727933953;

pub struct Fq2Config;
impl Fp2Config for Fq2Config {
    type Fp = Fq;
    const NONRESIDUE: Fq = MontFp!("-1");
    const FROBENIUS_COEFF_FP2_C1: &'static [Fq] = &[MontFp!("1"), MontFp!("-1")];
}
pub type Fq2 = Fp2<Fq2Config>;

macro_rules! curve {
    ($cfg:ident, $x:literal, $y:literal) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct $cfg;
        impl CurveConfig for $cfg {
            type BaseField = Fq;
            type ScalarField = Fr;
            const COFACTOR: &'static [u64] = &[4];
            const COFACTOR_INV: Fr = MontFp!("1729382249045950465");
        }
        impl SWCurveConfig for $cfg {
            const COEFF_A: Fq = MontFp!("1");
            const COEFF_B: Fq = MontFp!("0");
            const GENERATOR: Affine<Self> = Affine::new_unchecked(MontFp!($x), MontFp!($y));
        }
    };
}
curve!(G1Config, "6999244135902274489", "6398934305036760105");
curve!(G2Config, "105500067723032891", "5089719825959756973");

macro_rules! prepared {
    ($name:ident, $cfg:ident) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
        pub struct $name(pub Affine<$cfg>);
        impl Default for $name {
            fn default() -> Self {
                $name(Affine::<$cfg>::generator())
            }
        }
        impl From<Affine<$cfg>> for $name {
            fn from(p: Affine<$cfg>) -> Self {
                $name(p)
            }
        }
        impl<'a> From<&'a Affine<$cfg>> for $name {
            fn from(p: &'a Affine<$cfg>) -> Self {
                $name(*p)
            }
        }
        impl From<Projective<$cfg>> for $name {
            fn from(p: Projective<$cfg>) -> Self {
                $name(p.into_affine())
            }
        }
        impl<'a> From<&'a Projective<$cfg>> for $name {
            fn from(p: &'a Projective<$cfg>) -> Self {
                $name(p.into_affine())
            }
        }
    };
}
prepared!(G1Prepared, G1Config);
prepared!(G2Prepared, G2Config);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Toy;

impl Toy {
    fn miller(p: &Affine<G1Config>, q: &Affine<G2Config>) -> Fq2 {
        let mut f = Fq2::one();
        let (px, py) = (p.x, p.y);
        let (qx, qy) = (q.x, q.y);
        // T in Jacobian coordinates
        let (mut x, mut y, mut z) = (px, py, Fq::one());
        let bits = 64 - R_ORDER.leading_zeros();
        for i in (0..bits - 1).rev() {
            // doubling step; factors in F_q vanish in the final exponentiation
            let z2 = z.square();
            let m = x.square() * Fq::from(3u64) + z2.square();
            let z3 = (y * z).double();
            let y2 = y.square();
            let l = Fq2::new(m * (qx * z2 + x) - y2.double(), qy * z3 * z2);
            let s = (x * y2).double().double();
            let x3 = m.square() - s.double();
            let y3 = m * (s - x3) - y2.square().double().double().double();
            x = x3;
            y = y3;
            z = z3;
            f = f.square() * l;
            if (R_ORDER >> i) & 1 == 1 {
                let z2 = z.square();
                let h = px * z2 - x;
                if h.is_zero() {
                    // vertical line: lies in F_q, vanishes (only at the very last addition)
                    continue;
                }
                let r = py * z2 * z - y;
                let z3 = z * h;
                let l = Fq2::new(r * (qx + px) - py * z3, qy * z3);
                let h2 = h.square();
                let h3 = h2 * h;
                let xh2 = x * h2;
                let x3 = r.square() - h3 - xh2.double();
                let y3 = r * (xh2 - x3) - y * h3;
                x = x3;
                y = y3;
                z = z3;
                f *= l;
            }
        }
        f
    }
}

impl Pairing for Toy {
    type BaseField = Fq;
    type ScalarField = Fr;
    type G1 = Projective<G1Config>;
    type G1Affine = Affine<G1Config>;
    type G1Prepared = G1Prepared;
    type G2 = Projective<G2Config>;
    type G2Affine = Affine<G2Config>;
    type G2Prepared = G2Prepared;
    type TargetField = Fq2;

    fn multi_miller_loop(
        a: impl IntoIterator<Item = impl Into<G1Prepared>>,
        b: impl IntoIterator<Item = impl Into<G2Prepared>>,
    ) -> MillerLoopOutput<Self> {
        let a: Vec<G1Prepared> = a.into_iter().map(|x| x.into()).collect();
        let b: Vec<G2Prepared> = b.into_iter().map(|x| x.into()).collect();
        // the curves the crate is used with (`zip_eq`) refuse lists of different length as well
        assert_eq!(a.len(), b.len(), "multi_miller_loop: lists of different length");
        let mut f = Fq2::one();
        for (p, q) in a.iter().zip(b.iter()) {
            if !p.0.infinity && !q.0.infinity {
                f *= Toy::miller(&p.0, &q.0);
            }
        }
        MillerLoopOutput(f)
    }

    fn final_exponentiation(f: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
        let f = f.0;
        let inv = f.inverse()?;
        let mut c = f;
        c.conjugate_in_place();
        let g = c * inv; // f^(q-1)
        Some(PairingOutput(g.square().square())) // ^((q+1)/r) = ^4
    }
}

/// Start-up self test: the stand-in curve must be a bilinear, non-degenerate pairing group.
pub fn self_test() -> Result<(), String> {
    use ark_ec::{Group, VariableBaseMSM};
    use ark_ff::PrimeField;
    let g = Affine::<G1Config>::generator();
    let h = Affine::<G2Config>::generator();
    if !g.is_on_curve() || !h.is_on_curve() {
        return Err("generator off curve".into());
    }
    if !g.is_in_correct_subgroup_assuming_on_curve() || !h.is_in_correct_subgroup_assuming_on_curve() {
        return Err("generator not of order r".into());
    }
    let e = Toy::pairing(g, h);
    if e.is_zero() {
        return Err("degenerate".into());
    }
    if !e.mul_bigint([R_ORDER]).is_zero() {
        return Err("pairing output not of order r".into());
    }
    let mut st = 7u64;
    for _ in 0..20 {
        st = st.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let a = Fr::from(st >> 3);
        st = st.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let b = Fr::from(st >> 3);
        let ga = (g * a).into_affine();
        let hb = (h * b).into_affine();
        if Toy::pairing(ga, hb) != e.mul_bigint((a * b).into_bigint()) {
            return Err("not bilinear".into());
        }
        if Toy::multi_pairing([ga, g], [h, hb]) != e.mul_bigint((a + b).into_bigint()) {
            return Err("multi pairing".into());
        }
        let s: Projective<G1Config> = VariableBaseMSM::msm(&[g, ga], &[b, a]).unwrap();
        if s.into_affine() != (g * (b + a * a)).into_affine() {
            return Err("msm".into());
        }
    }
    Ok(())
}
