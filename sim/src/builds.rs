//! C20: a deployment whose members run different builds of the library. Every call is made on the
//! parallel build (under the seeded thread pool) and on the serial build with the same bytes and the
//! same randomness; outcomes must agree to the byte, and the deployment goes on with either one's
//! output.
use crate::codec::*;
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use crate::sys::*;
use ark_ff::{One, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use dist_saver::encryption::Ciphertext;
use dist_saver::keygen::*;
use dist_saver::setup::{ChunkedCommitmentGens, EncryptionGens};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub mod lib_types {
    pub struct Call {
        pub seed: u64,
        pub mode: crate::codec::Mode,
        pub bits: u8,
        pub k: u8,
        pub m: Vec<u16>,
        pub b: Vec<Vec<u8>>,
    }
}
use lib_types::Call;
mod par {
    use dist_saver as lib;
    include!("ops.rs");
}
mod ser {
    use dist_saver_serial as lib;
    include!("ops.rs");
}

struct Lab {
    mode: Mode,
    bits: u8,
}
enum Out {
    Fine(Vec<Vec<u8>>),
    Refused,
}
fn raw<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut o = vec![];
    t.serialize_uncompressed(&mut o).unwrap();
    o
}
fn unraw<T: CanonicalDeserialize>(b: &[u8]) -> T {
    T::deserialize_uncompressed_unchecked(b).unwrap()
}
impl Lab {
    fn e<T: Obj>(&self, t: &T) -> Vec<u8> {
        enc_raw(self.mode, t).unwrap()
    }
    fn d<T: Obj>(&self, b: &[u8]) -> R<T> {
        match dec_raw(self.mode, b) {
            Ok(v) => Ok(v),
            Err(e) => viol("builds:unreadable", format!("output of one build is unreadable to the other: {}", e)),
        }
    }
    /// one call on both builds
    fn call<E: Curve>(&self, cx: &mut Cx, op: &'static str, b: Vec<Vec<u8>>, m: Vec<u16>, k: u8) -> R<Out> {
        use ark_std::rand::RngCore;
        let c = Call { seed: cx.rng().next_u64(), mode: self.mode, bits: self.bits, k, m, b };
        let first = cx.chance(1, 2);
        let mut run = |cx: &mut Cx, parallel: bool| -> Result<Result<Vec<Vec<u8>>, String>, String> {
            *cx.st.ops.entry(format!("{} ({})", op, if parallel { "parallel" } else { "serial" })).or_default() += 1;
            let _ = take_panic();
            let r = catch_unwind(AssertUnwindSafe(|| if parallel { par::run::<E>(op, &c) } else { ser::run::<E>(op, &c) }));
            r.map_err(|_| take_panic().unwrap_or_default())
        };
        let x = run(cx, first);
        let y = run(cx, !first);
        let (p, s) = if first { (x, y) } else { (y, x) };
        cx.check();
        let say = |r: &Result<Result<Vec<Vec<u8>>, String>, String>| match r {
            Err(m) => format!("panics ({})", m),
            Ok(Err(e)) => format!("refuses ({})", e),
            Ok(Ok(_)) => "succeeds".to_string(),
        };
        match (p, s) {
            (Ok(Ok(p)), Ok(Ok(s))) => {
                if let Some(i) = (0..p.len().max(s.len())).find(|i| p.get(*i) != s.get(*i)) {
                    return viol(&format!("builds:{}:result", op), format!("{} at {} bits: result {} of the serial build differs from the parallel build's", op, self.bits, i));
                }
                for v in &p {
                    cx.log_bytes(v);
                }
                Ok(Out::Fine(p))
            }
            (p, s) => {
                let kind = |r: &Result<Result<Vec<Vec<u8>>, String>, String>| match r {
                    Err(_) => 0,
                    Ok(Err(_)) => 1,
                    Ok(Ok(_)) => 2,
                };
                ensure!(kind(&p) == kind(&s), &format!("builds:{}:outcome", op), "{} at {} bits: the parallel build {}, the serial build {}", op, self.bits, say(&p), say(&s));
                cx.log(|| format!("{} refused", op));
                Ok(Out::Refused)
            }
        }
    }
    /// a call on honest material
    fn must<E: Curve>(&self, cx: &mut Cx, op: &'static str, b: Vec<Vec<u8>>, m: Vec<u16>, k: u8) -> R<Vec<Vec<u8>>> {
        match self.call::<E>(cx, op, b, m, k)? {
            Out::Fine(v) => Ok(v),
            Out::Refused => viol(&format!("builds:{}:refused", op), format!("both builds refuse {} on honest material", op)),
        }
    }
}

/// loses, repeats, swaps or replaces an element
fn mangle<T: Clone>(cx: &mut Cx, v: &mut Vec<T>, other: T) {
    let n = v.len();
    match cx.choose(6) {
        0 => {
            v.pop();
        }
        1 => v.push(other),
        2 if n > 1 => v.swap(0, n - 1),
        3 if n > 0 => {
            let i = cx.choose(n);
            v[i] = other;
        }
        4 => v.clear(),
        _ if n > 1 => {
            let i = cx.choose(n);
            let x = v.remove(i);
            v.insert(0, x);
        }
        _ => v.push(other),
    }
}
fn mangle_key<E: Curve>(cx: &mut Cx, ek: &mut EncryptionKey<E>) {
    cx.fault("key_altered");
    let mut rng = cx.rng();
    match cx.choose(6) {
        0 => mangle(cx, &mut ek.X, G1::<E>::rand(&mut rng)),
        1 => mangle(cx, &mut ek.Y, G1::<E>::rand(&mut rng)),
        2 => mangle(cx, &mut ek.Z, G2::<E>::rand(&mut rng)),
        3 => ek.P_1 = G1::<E>::zero_point(),
        4 => {
            let t = ek.X.pop();
            ek.Y.pop();
            ek.Z.pop();
            drop(t);
        }
        _ => std::mem::swap(&mut ek.P_1, &mut ek.P_2),
    }
}
trait ZeroPoint {
    fn zero_point() -> Self;
}
impl<A: ark_ec::AffineRepr> ZeroPoint for A {
    fn zero_point() -> Self {
        A::zero()
    }
}
fn mangle_ct<E: Curve>(cx: &mut Cx, ct: &mut Ciphertext<E>) {
    cx.fault("ciphertext_altered");
    let mut rng = cx.rng();
    match cx.choose(4) {
        0 | 1 => mangle(cx, &mut ct.enc_chunks, G1::<E>::rand(&mut rng)),
        2 => ct.X_r = if cx.chance(1, 2) { G1::<E>::zero_point() } else { ct.commitment },
        _ => ct.commitment = G1::<E>::rand(&mut rng),
    }
}

pub fn run<E: Curve>(cx: &mut Cx) -> R {
    let mode = mode(cx);
    let wide = cx.chance(1, if E::REAL { 4 } else { 10 });
    let snark = if E::REAL { !wide } else { !wide && cx.chance(1, 2) };
    let bits: u8 = if E::REAL && !wide {
        64
    } else if wide {
        wide_bits::<E>(cx)
    } else if snark {
        [8u8, 4, 16, 12][cx.ch.weighted(&[4, 3, 2, 1])]
    } else {
        [8u8, 4, 16, 5, 20, 7, 31, 61][cx.ch.weighted(&[4, 3, 2, 1, 1, 1, 1, 1])]
    };
    let p: Arc<Params<E>> = params::<E>(cx, bits, snark, 0, false)?;
    let lab = Lab { mode, bits };
    let gens = lab.e(&p.gens);
    let (g, delta, gamma) = (raw(&p.g), raw(&p.delta), raw(&p.gamma));

    // stand-alone operations
    let mut jobs: Vec<usize> = vec![];
    for _ in 0..(if E::REAL { cx.choose(2) } else { cx.choose(4) }) {
        jobs.push(cx.choose(8));
    }
    for j in jobs {
        alone::<E>(cx, &lab, j, &p)?;
    }

    // key generation: every member on either build
    let n = parties(cx, E::REAL).min(if E::REAL && wide { 2 } else { 12 });
    let (mut sks, mut parts) = (vec![], vec![]);
    for _ in 0..n {
        let o = lab.must::<E>(cx, "partial", vec![gens.clone(), g.clone(), delta.clone(), gamma.clone()], vec![], 0)?;
        sks.push(lab.d::<SecretKeyST<E>>(&o[0])?);
        parts.push(lab.d::<FEncryptionKeyPartial<E>>(&o[1])?);
    }
    if cx.chance(1, 8) {
        // misfit generators
        cx.fault("short_generators");
        let mut short = p.g.clone();
        short.truncate(cx.choose(p.n.max(1)));
        lab.call::<E>(cx, "partial", vec![gens.clone(), raw(&short), delta.clone(), gamma.clone()], vec![], 0)?;
    }
    let ord = cx.ch.perm(n);
    let mut list: Vec<Vec<u8>> = vec![gamma.clone()];
    list.extend(ord.iter().map(|i| lab.e(&parts[*i])));
    if cx.chance(1, 8) {
        cx.fault("contribution_altered");
        let mut bad = parts[cx.choose(n)].clone();
        let mut rng = cx.rng();
        match cx.choose(3) {
            0 => mangle(cx, &mut bad.X, G1::<E>::rand(&mut rng)),
            1 => mangle(cx, &mut bad.Y, G1::<E>::rand(&mut rng)),
            _ => mangle(cx, &mut bad.Z, G2::<E>::rand(&mut rng)),
        }
        let mut l = list.clone();
        let at = 1 + cx.choose(n);
        l[at] = lab.e(&bad);
        lab.call::<E>(cx, "combine", l, vec![], 0)?;
    }
    let o = lab.must::<E>(cx, "combine", list, vec![], 0)?;
    let comb = lab.d::<FEncryptionKeyPartial<E>>(&o[0])?;
    let mut p1s = vec![];
    for sk in &sks {
        p1s.push(lab.must::<E>(cx, "p1", vec![lab.e(&comb), lab.e(sk)], vec![], 0)?.remove(0));
    }
    let ord = cx.ch.perm(n);
    let p1 = lab.must::<E>(cx, "p1sum", ord.iter().map(|i| p1s[*i].clone()).collect(), vec![], 0)?.remove(0);
    let o = lab.must::<E>(cx, "final", vec![lab.e(&comb), p1], vec![], 0)?;
    let joint = lab.d::<EncryptionKey<E>>(&o[0])?;
    cx.check();
    if let Some(d) = diff_key(&joint, &model_joint_key(&p, &sks)) {
        return viol("builds:joint_key", format!("component {} of the key made by members on different builds is not what their secrets define", d));
    }
    let o = lab.must::<E>(cx, "authority", vec![gens.clone(), g.clone(), delta.clone(), gamma.clone()], vec![], 0)?;
    let (ask, aek, adk) = (lab.d::<SecretKey<F<E>>>(&o[0])?, lab.d::<EncryptionKey<E>>(&o[1])?, lab.d::<DecryptionKey<E>>(&o[2])?);
    let by_authority = cx.chance(1, 2);
    let ek = if by_authority { aek.clone() } else { joint.clone() };
    lab.must::<E>(cx, "ek_info", vec![lab.e(&ek)], vec![], 0)?;
    lab.must::<E>(cx, "dk_info", vec![lab.e(&adk)], vec![], 0)?;
    if !E::REAL && bits <= 8 && cx.chance(1, 6) {
        let mut dk = adk.clone();
        if cx.chance(1, 2) {
            cx.fault("key_altered");
            let mut rng = cx.rng();
            mangle(cx, &mut dk.V_1, G2::<E>::rand(&mut rng));
            lab.call::<E>(cx, "dk_info", vec![lab.e(&dk)], vec![], 0)?;
        }
        lab.call::<E>(cx, "powers", vec![lab.e(&dk), g.clone()], vec![], 0)?;
    }

    // messages
    let srs = p.srs.as_ref();
    let field = [4u8, 8, 16].contains(&bits);
    let k = if E::REAL { 1 } else { 1 + cx.choose(4) };
    let mut cts: Vec<Ct<E>> = vec![];
    for _ in 0..k {
        let how = cx.ch.weighted(&[4, if field { 2 } else { 0 }, if field && srs.is_some() { 2 } else { 0 }, if field && srs.is_some() { 1 } else { 0 }]);
        let (ct, r, m, mut proof): (Ciphertext<E>, F<E>, Vec<Chunk>, Option<Vec<u8>>) = if how == 0 {
            let top = if cx.chance(1, 3) { 16 } else { 8 };
            let m = gen_msg(cx, p.n, bits.min(top));
            let o = lab.must::<E>(cx, "encrypt_chunks", vec![lab.e(&ek), g.clone()], m.clone(), 0)?;
            let v: Vec<G1<E>> = unraw(&o[0]);
            ensure!(v.len() == p.n + 2, "builds:encrypt_chunks:shape", "{} elements for {} chunks", v.len(), p.n);
            (to_ct::<E>(&v), unraw(&o[1]), m, None)
        } else {
            let (f, m) = gen_field::<E>(cx, bits)?;
            let (op, second): (&'static str, Vec<u8>) = match how {
                1 => ("encrypt", g.clone()),
                2 => ("encrypt_proof", raw(&srs.unwrap().pk)),
                _ => ("encrypt_vk", raw(srs.unwrap().vk())),
            };
            let o = lab.must::<E>(cx, op, vec![lab.e(&ek), second, raw(&f)], vec![], 0)?;
            (lab.d::<Ciphertext<E>>(&o[0])?, unraw(&o[1]), m, o.get(2).cloned())
        };
        cx.check();
        ensure!(to_vec(&ct) == model_ct(&p, &ek, &m, &r), "builds:encrypt", "ciphertext is not the encryption of its message");
        if let (None, Some(s), true) = (&proof, srs, cx.chance(2, 3)) {
            let o = lab.must::<E>(cx, "prove", vec![lab.e(&ek), raw(&s.pk), raw(&r)], m.clone(), 0)?;
            proof = Some(o[0].clone());
        }
        // verification, of the ciphertext as sent and now and then as altered on the way
        let mut seen = vec![ct.clone()];
        if cx.chance(1, 3) {
            let mut bad = ct.clone();
            mangle_ct::<E>(cx, &mut bad);
            seen.push(bad);
        }
        for (i, c) in seen.iter().enumerate() {
            let kk = cx.choose(2) as u8;
            let a = lab.call::<E>(cx, "verify_commitment", vec![lab.e(c), lab.e(&ek), gens.clone()], vec![], kk)?;
            ensure!(i > 0 || matches!(a, Out::Fine(_)), "builds:verify_commitment:refused", "both builds refuse an honest ciphertext");
            if let (Some(pr), Some(s)) = (&proof, srs) {
                let a = if cx.chance(1, 2) {
                    lab.call::<E>(cx, "verify_proof", vec![lab.e(c), raw(s.vk()), pr.clone()], vec![], 0)?
                } else {
                    lab.call::<E>(cx, "verify_both", vec![lab.e(c), lab.e(&ek), gens.clone(), raw(s.vk()), pr.clone()], vec![], 0)?
                };
                ensure!(i > 0 || matches!(a, Out::Fine(_)), "builds:verify_proof:refused", "both builds refuse an honest proof");
            }
        }
        cts.push(Ct { ct, r, m });
    }
    if cx.chance(1, 6) {
        let mut bad = ek.clone();
        mangle_key::<E>(cx, &mut bad);
        lab.call::<E>(cx, "ek_info", vec![lab.e(&bad)], vec![], 0)?;
        lab.call::<E>(cx, "encrypt_chunks", vec![lab.e(&bad), g.clone()], cts[0].m.clone(), 0)?;
        lab.call::<E>(cx, "verify_commitment", vec![lab.e(&cts[0].ct), lab.e(&bad), gens.clone()], vec![], 1)?;
    }
    if cx.chance(1, 6) {
        cx.fault("message_of_wrong_length");
        let mut m = cts[0].m.clone();
        mangle(cx, &mut m, 3);
        lab.call::<E>(cx, "encrypt_chunks", vec![lab.e(&ek), g.clone()], m, 0)?;
    }
    if cx.chance(1, 2) {
        let mut rng = cx.rng();
        let mut rp: Vec<F<E>> = cts.iter().map(|_| F::<E>::rand(&mut rng)).collect();
        let mut b: Vec<Ciphertext<E>> = cts.iter().map(|c| c.ct.clone()).collect();
        let mut clean = true;
        if cx.chance(1, 3) {
            clean = false;
            if cx.chance(1, 3) {
                mangle(cx, &mut rp, F::<E>::zero());
            } else {
                let i = cx.choose(b.len());
                mangle_ct::<E>(cx, &mut b[i]);
            }
        }
        let mut l = vec![lab.e(&ek), gens.clone(), raw(&rp)];
        l.extend(b.iter().map(|c| lab.e(c)));
        let kk = cx.choose(2) as u8;
        let a = lab.call::<E>(cx, "verify_batch", l, vec![], kk)?;
        ensure!(!clean || matches!(a, Out::Fine(_)), "builds:verify_batch:refused", "both builds refuse an honest batch");
    }

    if cx.chance(1, 3) {
        let mut rng = cx.rng();
        let rp: Vec<F<E>> = cts.iter().map(|_| F::<E>::rand(&mut rng)).collect();
        let mut l = vec![raw(&rp)];
        l.extend(cts.iter().map(|c| lab.e(&c.ct)));
        lab.must::<E>(cx, "pairing_left", l, vec![], 0)?;
        if let Some(s) = srs {
            lab.must::<E>(cx, "calculate_d", vec![raw(s.vk()), lab.e(&cts[0].ct)], vec![], 0)?;
        }
    }

    // opening
    let c = cts[cx.choose(cts.len())].clone();
    if by_authority {
        let slow = bits > 8;
        let kk = if E::REAL || slow { [0u8, 1][cx.choose(2)] } else { cx.choose(5) as u8 };
        let o = lab.call::<E>(cx, "decrypt", vec![lab.e(&c.ct), lab.e(&ask), lab.e(&adk), g.clone()], vec![], kk)?;
        if kk < 3 {
            let Out::Fine(o) = o else { return viol("builds:decrypt:refused", "both builds refuse to open an honest ciphertext") };
            ensure!(o[0] == raw(&c.m), "builds:decrypt:wrong", "both builds open an honest ciphertext to something else");
        }
        if !E::REAL && !slow && cx.chance(1, 3) {
            let mut bad = c.ct.clone();
            mangle_ct::<E>(cx, &mut bad);
            let kk = cx.choose(5) as u8;
            lab.call::<E>(cx, "decrypt", vec![lab.e(&bad), lab.e(&ask), lab.e(&adk), g.clone()], vec![], kk)?;
        }
    } else {
        let mut x = c.clone();
        if cts.len() > 1 && cx.chance(1, 2) && bits > 1 {
            let d = &cts[cx.choose(cts.len())];
            let (va, vb) = (to_vec(&x.ct), to_vec(&d.ct));
            let o = lab.must::<E>(cx, "add", vec![raw(&va), raw(&vb)], vec![], 0)?;
            let sum: Vec<G1<E>> = unraw(&o[0]);
            let m: Option<Vec<Chunk>> = x.m.iter().zip(&d.m).map(|(a, b)| a.checked_add(*b).filter(|s| *s as u32 <= max_of(bits))).collect();
            if let Some(m) = m {
                x = Ct { ct: to_ct::<E>(&sum), r: x.r + d.r, m };
            }
        }
        let o = lab.must::<E>(cx, "destination", vec![gens.clone()], vec![], 0)?;
        let dsk = lab.d::<SecretKey<F<E>>>(&o[0])?;
        let dpk = o[1].clone();
        let mut acc: Option<(Vec<u8>, Vec<u8>)> = None;
        for i in cx.ch.perm(n) {
            let o = lab.must::<E>(cx, "share", vec![gens.clone(), raw(&x.ct.X_r), raw(&x.ct.enc_chunks), dpk.clone(), lab.e(&sks[i])], vec![], 0)?;
            let (w, g) = (o[0].clone(), o[1].clone());
            acc = Some(match acc {
                None => (w, g),
                Some((w2, g2)) => {
                    let l = if cx.chance(1, 2) { vec![g, g2, w, w2] } else { vec![g2, g, w2, w] };
                    let o = lab.must::<E>(cx, "share_sum", l, vec![], 0)?;
                    (o[0].clone(), o[1].clone())
                }
            });
        }
        let (w, gr) = acc.unwrap();
        if cx.chance(1, 6) {
            cx.fault("share_altered");
            let mut v: Vec<G1<E>> = unraw(&w);
            let mut rng = cx.rng();
            mangle(cx, &mut v, G1::<E>::rand(&mut rng));
            lab.call::<E>(cx, "switch", vec![gens.clone(), raw(&x.ct.enc_chunks), gr.clone(), raw(&v)], vec![], 0)?;
            lab.call::<E>(cx, "share_sum", vec![gr.clone(), gr.clone(), w.clone(), raw(&v)], vec![], 0)?;
            let mut sk = sks[0].clone();
            mangle(cx, &mut sk.s, F::<E>::one());
            lab.call::<E>(cx, "share", vec![gens.clone(), raw(&x.ct.X_r), raw(&x.ct.enc_chunks), dpk.clone(), lab.e(&sk)], vec![], 0)?;
        }
        let o = lab.must::<E>(cx, "switch", vec![gens.clone(), raw(&x.ct.enc_chunks), gr, w], vec![], 0)?;
        let v: Vec<G1<E>> = unraw(&o[0]);
        ensure!(v.len() == p.n + 1, "builds:switch:shape", "{} elements for {} chunks", v.len(), p.n);
        let o = lab.must::<E>(cx, "open", vec![raw(&v[0]), raw(&v[1..].to_vec()), lab.e(&dsk), g.clone()], vec![], 0)?;
        ensure!(o[0] == raw(&x.m), "builds:open:wrong", "the destination opens something else than was encrypted");
        if cx.chance(1, 6) && !E::REAL {
            cx.fault("wrong_key");
            lab.call::<E>(cx, "open", vec![raw(&v[0]), raw(&v[1..].to_vec()), lab.e(&ask), g.clone()], vec![], 0)?;
        }
    }
    cx.nontrivial |= n > 1;
    Ok(())
}

fn alone<E: Curve>(cx: &mut Cx, lab: &Lab, j: usize, p: &Params<E>) -> R {
    let mut rng = cx.rng();
    match j {
        0 => {
            let mut label = vec![0u8; [0usize, 3, 20, 64, 130, 300][cx.choose(6)]];
            ark_std::rand::RngCore::fill_bytes(&mut rng, &mut label);
            let op = if cx.chance(1, 3) { "hash" } else { "gens" };
            lab.must::<E>(cx, op, vec![label], vec![], 0)?;
        }
        1 => {
            lab.must::<E>(cx, "gens_rng", vec![], vec![], 0)?;
        }
        2 => {
            let l = Lab { mode: lab.mode, bits: cx.choose(34) as u8 };
            let f = F::<E>::rand(&mut rng);
            l.call::<E>(cx, "split", vec![raw(&f)], vec![], 0)?;
        }
        3 => {
            let len = cx.choose(70);
            let l = Lab { mode: lab.mode, bits: [4u8, 8, 16, 5][cx.choose(4)] };
            let top = if cx.chance(1, 2) { max_of(l.bits) } else { 65535 };
            let m: Vec<u16> = (0..len).map(|_| (ark_std::rand::RngCore::next_u32(&mut rng) % (top + 1)) as u16).collect();
            l.call::<E>(cx, "compose", vec![], m, 0)?;
        }
        4 => {
            let l = Lab { mode: lab.mode, bits: [4u8, 8, 16, 5][cx.choose(4)] };
            let cg = ChunkedCommitmentGens::<G1<E>> { G: G1::<E>::rand(&mut rng), H: G1::<E>::rand(&mut rng) };
            l.call::<E>(cx, "commit", vec![raw(&F::<E>::rand(&mut rng)), raw(&F::<E>::rand(&mut rng)), l.e(&cg)], vec![], 0)?;
        }
        5 => {
            let len = cx.choose(if E::REAL { 5 } else { 70 });
            let v: Vec<F<E>> = (0..len).map(|_| F::<E>::rand(&mut rng)).collect();
            let k = cx.choose(100) as u8;
            lab.must::<E>(cx, "table", vec![raw(&G1::<E>::rand(&mut rng)), raw(&v)], vec![], k)?;
        }
        6 => {
            let v: Vec<F<E>> = (0..9).map(|_| F::<E>::rand(&mut rng)).collect();
            lab.must::<E>(cx, "join", vec![raw(&v)], vec![], 0)?;
        }
        _ => {
            if E::REAL {
                return Ok(());
            }
            let l = Lab { mode: lab.mode, bits: [8u8, 4, 16, 0, 3][cx.choose(5)] };
            let op = if cx.chance(1, 2) { "setup" } else { "srs" };
            if l.bits == 0 && op == "srs" {
                return Ok(());
            }
            l.call::<E>(cx, op, vec![l.e::<EncryptionGens<E>>(&p.gens)], vec![], 0)?;
        }
    }
    Ok(())
}
