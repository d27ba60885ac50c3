//! C09: every protocol object, written back to back to simulated devices and read again through
//! short, interrupted, failing, torn and corrupting ones.
use crate::cluster::draw_bits;
use crate::codec::*;
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use crate::sys::*;
use ark_ec::pairing::Pairing;
use ark_ec::AffineRepr;
use ark_ff::{BigInteger, PrimeField, UniformRand};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Valid, Validate};
use ark_std::rand::RngCore;
use dist_saver::commitment::ChunkedCommitment;
use dist_saver::encryption::Ciphertext;
use dist_saver::keygen::*;
use dist_saver::saver_groth16::{Proof, ProvingKey, VerifyingKey};
use dist_saver::setup::{ChunkedCommitmentGens, EncryptionGens, PreparedEncryptionGens};
use dist_saver::utils::WindowTable;
use serde::{de::DeserializeOwned, Serialize};
use std::io::{self, Read, Write};

// ------------------------------------------------------------------------------------------
// devices

#[derive(Clone, Copy, Default, Debug)]
pub struct DevFaults {
    /// deliver at most this many bytes per call (0: no limit)
    short: usize,
    /// one call in this many is interrupted (0: never)
    intr: u64,
    /// position at which every call fails with an I/O error
    fail_at: Option<usize>,
    /// kind of that failure: true = the medium ends there (EOF / device full)
    end: bool,
}
struct WDev {
    data: Vec<u8>,
    f: DevFaults,
    rng: SimRng,
    shorts: u64,
    intrs: u64,
    failed: bool,
}
impl Write for WDev {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.f.intr > 0 && self.rng.next_u64() % self.f.intr == 0 {
            self.intrs += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len();
        if self.f.short > 0 {
            let k = 1 + (self.rng.next_u64() as usize) % self.f.short;
            if k < n {
                n = k;
                self.shorts += 1;
            }
        }
        if let Some(at) = self.f.fail_at {
            let left = at.saturating_sub(self.data.len());
            if left == 0 {
                self.failed = true;
                return if self.f.end { Ok(0) } else { Err(io::Error::new(io::ErrorKind::Other, "EIO")) };
            }
            n = n.min(left);
        }
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct RDev<'a> {
    data: &'a [u8],
    pos: usize,
    f: DevFaults,
    rng: SimRng,
    shorts: u64,
    intrs: u64,
    failed: bool,
}
impl Read for RDev<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.f.intr > 0 && self.rng.next_u64() % self.f.intr == 0 {
            self.intrs += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(self.data.len() - self.pos);
        if self.f.short > 0 && n > 0 {
            let k = 1 + (self.rng.next_u64() as usize) % self.f.short;
            if k < n {
                n = k;
                self.shorts += 1;
            }
        }
        if let Some(at) = self.f.fail_at {
            let left = at.saturating_sub(self.pos);
            if left == 0 {
                self.failed = true;
                return if self.f.end { Ok(0) } else { Err(io::Error::new(io::ErrorKind::Other, "EIO")) };
            }
            n = n.min(left);
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

// ------------------------------------------------------------------------------------------
// records

#[derive(Clone)]
enum Rec<E: Pairing> {
    Ct(Ciphertext<E>),
    Sk(SecretKey<F<E>>),
    St(SecretKeyST<E>),
    P1(P1share<E>),
    Part(FEncryptionKeyPartial<E>),
    Ek(EncryptionKey<E>),
    Dest(FEncryptionKeyDest<E>),
    Dk(DecryptionKey<E>),
    Gens(EncryptionGens<E>),
    Pgens(PreparedEncryptionGens<E>),
    CGens1(ChunkedCommitmentGens<G1<E>>),
    CGens2(ChunkedCommitmentGens<G2<E>>),
    Com1(ChunkedCommitment<G1<E>>),
    Com2(ChunkedCommitment<G2<E>>),
    Wt1(WindowTable<E::G1>),
    Wt2(WindowTable<E::G2>),
    Pk(ProvingKey<E>),
    Proof(Proof<E>),
    Vk(VerifyingKey<E>),
}

fn put<T: CanonicalSerialize + Serialize>(m: Mode, t: &T, w: &mut dyn Write) -> Result<(), String> {
    match m {
        Mode::Json => serde_json::to_writer(w, t).map_err(|e| e.to_string()),
        Mode::Bincode => bincode::serialize_into(w, t).map_err(|e| e.to_string()),
        _ => put_c(m, t, w),
    }
}
fn put_c<T: CanonicalSerialize>(m: Mode, t: &T, w: &mut dyn Write) -> Result<(), String> {
    let c = if m == Mode::Uncompressed { Compress::No } else { Compress::Yes };
    t.serialize_with_mode(w, c).map_err(|e| format!("{:?}", e))
}
fn get<T: CanonicalDeserialize + DeserializeOwned>(m: Mode, v: Validate, r: &mut dyn Read) -> Result<T, String> {
    match m {
        Mode::Json => {
            let mut d = serde_json::Deserializer::from_reader(r);
            serde::de::Deserialize::deserialize(&mut d).map_err(|e: serde_json::Error| e.to_string())
        }
        Mode::Bincode => bincode::deserialize_from(r).map_err(|e| e.to_string()),
        _ => get_c(m, v, r),
    }
}
fn get_c<T: CanonicalDeserialize>(m: Mode, v: Validate, r: &mut dyn Read) -> Result<T, String> {
    let c = if m == Mode::Uncompressed { Compress::No } else { Compress::Yes };
    T::deserialize_with_mode(r, c, v).map_err(|e| format!("{:?}", e))
}

macro_rules! serde_kinds {
    ($mac:ident) => {
        $mac!(Ct, Sk, St, P1, Part, Ek, Dest, Dk, Gens, Pgens, CGens1, CGens2, Com1, Com2, Wt1, Wt2, Pk)
    };
}
impl<E: Curve> Rec<E> {
    fn name(&self) -> &'static str {
        macro_rules! f { ($($k:ident),*) => { match self { $(Rec::$k(_) => stringify!($k),)* Rec::Proof(_) => "Proof", Rec::Vk(_) => "Vk" } } }
        serde_kinds!(f)
    }
    fn put(&self, m: Mode, w: &mut dyn Write) -> Result<(), String> {
        macro_rules! f { ($($k:ident),*) => { match self { $(Rec::$k(x) => put(m, x, w),)* Rec::Proof(x) => put_c(m, x, w), Rec::Vk(x) => put_c(m, x, w) } } }
        serde_kinds!(f)
    }
    /// read a record of the same kind as `self`
    fn get(&self, m: Mode, v: Validate, r: &mut dyn Read) -> Result<Rec<E>, String> {
        macro_rules! f { ($($k:ident),*) => { match self { $(Rec::$k(_) => Ok(Rec::$k(get(m, v, r)?)),)* Rec::Proof(_) => Ok(Rec::Proof(get_c(m, v, r)?)), Rec::Vk(_) => Ok(Rec::Vk(get_c(m, v, r)?)) } } }
        serde_kinds!(f)
    }
    /// a list of `k` records, all like `self` but for `odd` in place `at`, written as one value
    fn put_list(&self, odd: &Rec<E>, k: usize, at: usize, m: Mode, w: &mut dyn Write) -> Result<(), String> {
        fn l<T: Clone>(x: &T, y: &T, k: usize, at: usize) -> Vec<T> {
            (0..k).map(|i| if i == at { y.clone() } else { x.clone() }).collect()
        }
        macro_rules! f { ($($k:ident),*) => { match (self, odd) {
            $((Rec::$k(x), Rec::$k(y)) => put(m, &l(x, y, k, at), w),)*
            (Rec::Proof(x), Rec::Proof(y)) => put_c(m, &l(x, y, k, at), w),
            (Rec::Vk(x), Rec::Vk(y)) => put_c(m, &l(x, y, k, at), w),
            _ => Err("kinds".into()) } } }
        serde_kinds!(f)
    }
    fn get_list(&self, m: Mode, v: Validate, r: &mut dyn Read) -> Result<Vec<Rec<E>>, String> {
        macro_rules! f { ($($k:ident),*) => { match self {
            $(Rec::$k(_) => Ok(get::<Vec<_>>(m, v, r)?.into_iter().map(Rec::$k).collect()),)*
            Rec::Proof(_) => Ok(get_c::<Vec<_>>(m, v, r)?.into_iter().map(Rec::Proof).collect()),
            Rec::Vk(_) => Ok(get_c::<Vec<_>>(m, v, r)?.into_iter().map(Rec::Vk).collect()) } } }
        serde_kinds!(f)
    }
    /// the object's own validity check
    fn valid(&self) -> bool {
        macro_rules! f { ($($k:ident),*) => { match self { $(Rec::$k(x) => x.check().is_ok(),)* Rec::Proof(x) => x.check().is_ok(), Rec::Vk(x) => x.check().is_ok() } } }
        serde_kinds!(f)
    }
    fn same(&self, o: &Rec<E>) -> bool {
        macro_rules! f { ($($k:ident),*) => { match (self, o) {
            (Rec::Pgens(x), Rec::Pgens(y)) => {
                // prepared points offer no comparison of their own
                let b = |p: &PreparedEncryptionGens<E>| { let mut v = vec![]; p.serialize_uncompressed(&mut v).map(|_| v).ok() };
                b(x) == b(y)
            }
            $((Rec::$k(x), Rec::$k(y)) => x == y,)*
            (Rec::Proof(x), Rec::Proof(y)) => x == y, (Rec::Vk(x), Rec::Vk(y)) => x == y, _ => false } } }
        f!(Ct, Sk, St, P1, Part, Ek, Dest, Dk, Gens, CGens1, CGens2, Com1, Com2, Wt1, Wt2, Pk)
    }
    fn size(&self, c: Compress) -> usize {
        macro_rules! f { ($($k:ident),*) => { match self { $(Rec::$k(x) => x.serialized_size(c),)* Rec::Proof(x) => x.serialized_size(c), Rec::Vk(x) => x.serialized_size(c) } } }
        serde_kinds!(f)
    }
    fn serde(&self) -> bool {
        !matches!(self, Rec::Proof(_) | Rec::Vk(_))
    }
    fn mode(&self, m: Mode) -> Mode {
        if self.serde() {
            m
        } else if m == Mode::Json {
            Mode::Uncompressed
        } else if m == Mode::Bincode {
            Mode::Compressed
        } else {
            m
        }
    }
    #[allow(clippy::type_complexity)]
    fn parts(&mut self) -> (Vec<&mut G1<E>>, Vec<&mut G2<E>>, Vec<&mut F<E>>) {
        let (mut a, mut b, mut f): (Vec<&mut G1<E>>, Vec<&mut G2<E>>, Vec<&mut F<E>>) = (vec![], vec![], vec![]);
        fn vk<'x, E: Pairing>(v: &'x mut VerifyingKey<E>, a: &mut Vec<&'x mut G1<E>>, b: &mut Vec<&'x mut G2<E>>) {
            a.push(&mut v.alpha_g1);
            b.push(&mut v.beta_g2);
            b.push(&mut v.gamma_g2);
            b.push(&mut v.delta_g2);
            a.extend(v.gamma_abc_g1.iter_mut());
        }
        match self {
            Rec::Ct(x) => {
                a.push(&mut x.X_r);
                a.extend(x.enc_chunks.iter_mut());
                a.push(&mut x.commitment);
            }
            Rec::Sk(x) => f.push(&mut x.0),
            Rec::St(x) => {
                f.extend(x.s.iter_mut());
                f.extend(x.t.iter_mut());
            }
            Rec::P1(x) => a.push(&mut x.P_1),
            Rec::Part(x) => {
                a.push(&mut x.X_0);
                a.extend(x.X.iter_mut());
                a.extend(x.Y.iter_mut());
                b.extend(x.Z.iter_mut());
                a.push(&mut x.P_2);
            }
            Rec::Ek(x) => {
                a.push(&mut x.X_0);
                a.extend(x.X.iter_mut());
                a.extend(x.Y.iter_mut());
                b.extend(x.Z.iter_mut());
                a.push(&mut x.P_1);
                a.push(&mut x.P_2);
            }
            Rec::Dest(x) => a.push(&mut x.pk),
            Rec::Dk(x) => {
                b.push(&mut x.V_0);
                b.extend(x.V_1.iter_mut());
                b.extend(x.V_2.iter_mut());
            }
            Rec::Gens(x) => {
                a.push(&mut x.G);
                b.push(&mut x.H);
            }
            Rec::CGens1(x) => {
                a.push(&mut x.G);
                a.push(&mut x.H);
            }
            Rec::CGens2(x) => {
                b.push(&mut x.G);
                b.push(&mut x.H);
            }
            Rec::Com1(x) => {
                a.push(&mut x.0);
                a.extend(x.1.iter_mut());
            }
            Rec::Com2(x) => {
                b.push(&mut x.0);
                b.extend(x.1.iter_mut());
            }
            Rec::Pk(x) => {
                vk::<E>(&mut x.pk.vk, &mut a, &mut b);
                a.push(&mut x.pk.beta_g1);
                a.push(&mut x.pk.delta_g1);
                a.extend(x.pk.a_query.iter_mut());
                a.extend(x.pk.b_g1_query.iter_mut());
                b.extend(x.pk.b_g2_query.iter_mut());
                a.extend(x.pk.h_query.iter_mut());
                a.extend(x.pk.l_query.iter_mut());
                a.push(&mut x.gamma_g1);
            }
            Rec::Proof(x) => {
                a.push(&mut x.a);
                b.push(&mut x.b);
                a.push(&mut x.c);
            }
            Rec::Vk(x) => vk::<E>(x, &mut a, &mut b),
            Rec::Pgens(_) | Rec::Wt1(_) | Rec::Wt2(_) => {}
        }
        (a, b, f)
    }
    /// every group element of the record is a member of its group
    fn members(&mut self) -> bool {
        let (a, b, _) = self.parts();
        a.iter().all(|p| E::g1_ok(p)) && b.iter().all(|p| E::g2_ok(p))
    }
    /// unusual but legitimate shapes
    fn edge(&mut self, cx: &mut Cx) {
        match cx.choose(3) {
            0 => {
                let (mut a, mut b, mut f) = self.parts();
                let n = a.len() + b.len() + f.len();
                if n == 0 {
                    return;
                }
                let i = cx.choose(n);
                if i < a.len() {
                    *a[i] = G1::<E>::zero();
                } else if i < a.len() + b.len() {
                    let i = i - a.len();
                    *b[i] = G2::<E>::zero();
                } else {
                    let i = i - a.len() - b.len();
                    *f[i] = -F::<E>::from(cx.choose(2) as u64);
                }
                cx.probe("edge:identity");
            }
            k => {
                let keep = |n: usize| if k == 1 { 0 } else { n / 2 };
                match self {
                    Rec::Ct(x) => x.enc_chunks.truncate(keep(x.enc_chunks.len())),
                    Rec::St(x) => x.s.truncate(keep(x.s.len())),
                    Rec::Part(x) => x.Y.truncate(keep(x.Y.len())),
                    Rec::Ek(x) => x.Z.truncate(keep(x.Z.len())),
                    Rec::Dk(x) => x.V_1.truncate(keep(x.V_1.len())),
                    Rec::Com1(x) => x.1.truncate(keep(x.1.len())),
                    Rec::Com2(x) => x.1.truncate(keep(x.1.len())),
                    Rec::Vk(x) => x.gamma_abc_g1.truncate(keep(x.gamma_abc_g1.len())),
                    _ => return,
                }
                cx.probe("edge:short_vector");
            }
        }
    }
}

struct Written {
    mode: Mode,
    start: usize,
    end: usize,
}

fn dev(cx: &mut Cx) -> DevFaults {
    let mut f = DevFaults::default();
    if cx.chance(2, 3) {
        f.short = [1usize, 3, 7, 31, 100][cx.choose(5)];
    }
    if cx.chance(1, 2) {
        f.intr = [2u64, 3, 5, 20][cx.choose(4)];
    }
    f
}
fn note(cx: &mut Cx, w: &str, shorts: u64, intrs: u64) {
    if shorts > 0 {
        *cx.st.faults.entry(format!("short_{}", w)).or_default() += shorts;
        cx.nontrivial = true;
    }
    if intrs > 0 {
        *cx.st.faults.entry(format!("interrupted_{}", w)).or_default() += intrs;
        cx.nontrivial = true;
    }
}

fn pool<E: Curve>(cx: &mut Cx) -> R<Vec<Rec<E>>> {
    let snark = cx.chance(1, if E::REAL { 2 } else { 3 });
    let bits = if E::REAL { if !snark && cx.chance(1, 3) { wide_bits::<E>(cx) } else { 64 } } else { draw_bits::<E>(cx, snark) };
    let p = params::<E>(cx, bits, snark, 0, false)?;
    let n = 1 + cx.choose(3);
    let j = joint::<E>(cx, &p, n)?;
    let d = dealer::<E>(cx, &p)?;
    let (dsk, dpk) = dest::<E>(cx, &p)?;
    let m = gen_msg(cx, p.n, bits.min(16));
    let c = encrypt::<E>(cx, &p, &j.ek, &m)?;
    let mut rng = cx.rng();
    let cg1 = cx.lib("ChunkedCommitmentGens::new_using_rng", || ChunkedCommitmentGens::<G1<E>>::new_using_rng(&mut rng))?;
    let cg2 = cx.lib("ChunkedCommitmentGens::new_using_rng", || ChunkedCommitmentGens::<G2<E>>::new_using_rng(&mut rng))?;
    let cb = *cx.ch.pick(&[8u8, 16, 4]);
    let (x, y) = (F::<E>::rand(&mut rng), F::<E>::rand(&mut rng));
    let com1 = cx.ok("ChunkedCommitment::new", || ChunkedCommitment::new(&x, &y, cb, &cg1))?;
    let com2 = cx.ok("ChunkedCommitment::new", || ChunkedCommitment::new(&x, &y, cb, &cg2))?;
    let k = 1 + cx.choose(4);
    let wt1 = cx.lib("WindowTable::new", || WindowTable::<E::G1>::new(k, p.gens.G.into_group()))?;
    let wt2 = cx.lib("WindowTable::new", || WindowTable::<E::G2>::new(k, p.gens.H.into_group()))?;
    let mut v = vec![
        Rec::Ct(c.ct.clone()),
        Rec::St(j.sks[0].clone()),
        Rec::Part(j.parts[0].clone()),
        Rec::P1(j.shares[0].clone()),
        Rec::Ek(j.ek.clone()),
        Rec::Sk(dsk),
        Rec::Dest(dpk),
        Rec::Dk(d.dk.clone()),
        Rec::Gens(p.gens.clone()),
        Rec::Pgens(p.pgens.clone()),
        Rec::CGens1(cg1),
        Rec::CGens2(cg2),
        Rec::Com1(com1),
        Rec::Com2(com2),
        Rec::Part(j.comb.clone()),
    ];
    if !E::REAL || cx.chance(1, 4) {
        v.push(Rec::Wt1(wt1));
        v.push(Rec::Wt2(wt2));
    }
    if snark {
        let pr = prove::<E>(cx, &p, &j.ek, &c)?;
        v.push(Rec::Proof(pr));
        let s = p.srs.as_ref().unwrap();
        v.push(Rec::Vk(s.vk().clone()));
        if cx.chance(1, 3) {
            v.push(Rec::Pk(s.pk.clone()));
        }
    }
    Ok(v)
}

fn find(h: &[u8], n: &[u8]) -> Vec<usize> {
    if n.is_empty() || h.len() < n.len() {
        return vec![];
    }
    (0..=h.len() - n.len()).filter(|i| &h[*i..*i + n.len()] == n).collect()
}

pub fn run<E: Curve>(cx: &mut Cx) -> R {
    let pool = pool::<E>(cx)?;
    // the records of this log, in order
    let k = 1 + cx.choose(if E::REAL { 4 } else { 8 });
    let mut recs: Vec<Rec<E>> = vec![];
    for _ in 0..k {
        let mut r = pool[cx.choose(pool.len())].clone();
        if cx.chance(1, 5) {
            r.edge(cx);
        }
        recs.push(r);
    }

    // sizes to aim faults at
    let mut total = 0;
    let mut modes = vec![];
    let mut sizes = vec![];
    for r in &recs {
        let m = r.mode(mode(cx));
        let mut b = vec![];
        cx.ok("serialize", || r.put(m, &mut b))?;
        cx.check();
        if matches!(m, Mode::Compressed | Mode::Uncompressed) {
            let c = if m == Mode::Compressed { Compress::Yes } else { Compress::No };
            let s = cx.lib("serialized_size", || r.size(c))?;
            ensure!(s == b.len(), "codec:size", "{} says it takes {} bytes {:?} but writes {}", r.name(), s, m, b.len());
        }
        total += b.len();
        sizes.push(b.len());
        modes.push(m);
    }

    // ---- write phase
    let mut f = dev(cx);
    if cx.chance(1, 3) {
        f.fail_at = Some(cx.choose(total + 1));
        f.end = cx.chance(1, 2);
    }
    let rng = cx.rng();
    let mut w = WDev { data: vec![], f, rng, shorts: 0, intrs: 0, failed: false };
    let mut done: Vec<Written> = vec![];
    let mut cut: Option<usize> = None; // the record the device failed in
    for (i, r) in recs.iter().enumerate() {
        let start = w.data.len();
        let res = cx.lib("serialize(device)", || r.put(modes[i], &mut w))?;
        cx.check();
        cx.log(|| format!("write {} {} {:?} -> {} bytes {}", i, r.name(), modes[i], w.data.len() - start, res.is_ok()));
        if w.failed {
            cx.fault(if f.end { "device_full" } else { "write_eio" });
            if res.is_ok() && matches!(r, Rec::Pgens(_)) && f.end && w.data.len() - start + 1 == sizes[i] {
                // ark-serialize writes a bool with `Write::write`, whose Ok(0) it ignores
                cx.finding("PreparedEncryptionGens:final_bool_lost_on_full_device", format!("wrote {} of {} bytes and reported success", w.data.len() - start, sizes[i]))?;
                cut = Some(i);
                break;
            }
            ensure!(res.is_err(), "codec:lost_write_error", "writing {} ({:?}) reported success although the device failed after {} bytes", r.name(), modes[i], w.data.len() - start);
            cut = Some(i);
            break;
        }
        if matches!((&res, r), (Err(e), Rec::Pgens(_)) if e.contains("Interrupted")) {
            // the same: an interrupted one-byte `write` is not retried
            cx.finding("PreparedEncryptionGens:interrupted_write_not_retried", format!("{:?}", res))?;
            cut = Some(i);
            break;
        }
        ensure!(res.is_ok(), "codec:write_refused", "writing {} ({:?}) failed on a working device: {:?}", r.name(), modes[i], res);
        done.push(Written { mode: modes[i], start, end: w.data.len() });
    }
    note(cx, "write", w.shorts, w.intrs);
    let mut data = w.data;
    // crash: an unsynced tail is lost
    if cx.chance(1, 3) && !data.is_empty() {
        let keep = match cx.choose(3) {
            0 => data.len() - 1,
            1 => {
                let d = &done[..];
                if d.is_empty() { 0 } else { d[cx.choose(d.len())].start + cx.choose(12) }
            }
            _ => cx.choose(data.len()),
        }
        .min(data.len());
        if keep < data.len() {
            cx.fault("lost_tail");
        }
        data.truncate(keep);
    }
    cx.log_bytes(&data);

    // ---- recovery phase: read everything back in order
    for attempt in 0..2 {
        let mut f = dev(cx);
        let fault = attempt == 0 && cx.chance(1, 3) && !data.is_empty();
        if fault {
            f.fail_at = Some(cx.choose(data.len()));
            f.end = cx.chance(1, 2);
        }
        let rng = cx.rng();
        let mut d = RDev { data: &data, pos: 0, f, rng, shorts: 0, intrs: 0, failed: false };
        for (i, r) in recs.iter().enumerate() {
            let (m, range) = match done.get(i) {
                Some(w) => (w.mode, Some((w.start, w.end))),
                None => (modes[i], None),
            };
            if range.is_none() && cut != Some(i) {
                break;
            }
            let val = if cx.chance(1, 6) { Validate::No } else { Validate::Yes };
            let res = cx.lib("deserialize(device)", || r.get(m, val, &mut d))?;
            cx.check();
            let whole = matches!(range, Some((_, e)) if e <= data.len());
            match res {
                Ok(v) => {
                    ensure!(!d.failed, "codec:read_error_swallowed", "reading {} ({:?}) returned a value although the device failed inside it", r.name(), m);
                    ensure!(whole, "codec:torn_accepted", "a torn {} ({:?}) was accepted", r.name(), m);
                    let (s, e) = range.unwrap();
                    ensure!(v.same(r), "codec:roundtrip", "{} ({:?}) came back different", r.name(), m);
                    ensure!(d.pos == e, "codec:misaligned", "reading {} ({:?}) consumed {} bytes of {}", r.name(), m, d.pos - s.min(d.pos), e - s);
                    let mut again = vec![];
                    cx.ok("serialize", || v.put(m, &mut again))?;
                    ensure!(again == data[s..e], "codec:reencode", "{} ({:?}) encodes differently after a round trip", r.name(), m);
                }
                Err(e) => {
                    if d.failed {
                        cx.fault(if f.end { "read_eof" } else { "read_eio" });
                    } else {
                        ensure!(!whole, "codec:good_refused", "an intact {} ({:?}) was refused: {}", r.name(), m, e);
                        cx.fault("torn_record_refused");
                    }
                    break;
                }
            }
        }
        note(cx, "read", d.shorts, d.intrs);
        if !fault {
            break;
        }
    }

    // ---- corruption and forgery, one record at a time
    let tries = if E::REAL { 2 } else { 4 };
    for _ in 0..tries {
        let i = cx.choose(recs.len());
        if cx.chance(1, 5) {
            list(cx, &recs[i])?;
        } else if cx.chance(1, 4) {
            full(cx, &recs[i], modes[i], sizes[i])?;
        } else if cx.chance(1, 2) {
            forge(cx, &recs[i])?;
        } else {
            let j = cx.choose(recs.len());
            corrupt(cx, &recs[i], modes[i], &recs[j])?;
        }
    }
    Ok(())
}

/// many records stored as one value
fn list<E: Curve>(cx: &mut Cx, r: &Rec<E>) -> R {
    let mut odd = r.clone();
    if cx.chance(1, 2) {
        odd.edge(cx);
    }
    let k = cx.choose(if E::REAL { 4 } else { 9 });
    let at = cx.choose(k.max(1));
    let m = r.mode(mode(cx));
    let f = dev(cx);
    let rng = cx.rng();
    let mut w = WDev { data: vec![], f, rng, shorts: 0, intrs: 0, failed: false };
    let res = cx.lib("serialize(list)", || r.put_list(&odd, k, at, m, &mut w))?;
    note(cx, "write", w.shorts, w.intrs);
    if matches!((&res, r), (Err(e), Rec::Pgens(_)) if e.contains("Interrupted")) {
        return cx.finding("PreparedEncryptionGens:interrupted_write_not_retried", format!("{:?}", res));
    }
    ensure!(res.is_ok(), "codec:write_refused", "writing {} {} ({:?}) failed on a working device: {:?}", k, r.name(), m, res);
    let data = w.data;
    let f = dev(cx);
    let rng = cx.rng();
    let mut d = RDev { data: &data, pos: 0, f, rng, shorts: 0, intrs: 0, failed: false };
    let res = cx.lib("deserialize(list)", || r.get_list(m, Validate::Yes, &mut d))?;
    note(cx, "read", d.shorts, d.intrs);
    cx.check();
    let v = match res {
        Ok(v) => v,
        Err(e) => return viol("codec:good_refused", format!("an intact list of {} {} ({:?}) was refused: {}", k, r.name(), m, e)),
    };
    ensure!(v.len() == k, "codec:roundtrip", "a list of {} {} came back with {}", k, r.name(), v.len());
    for (i, x) in v.iter().enumerate() {
        ensure!(x.same(if i == at { &odd } else { r }), "codec:roundtrip", "number {} of {} {} ({:?}) came back different", i, k, r.name(), m);
        ensure!(cx.lib("check", || x.valid())?, "codec:good_refused", "the validity check refuses an honest {}", r.name());
    }
    // a torn list
    if !data.is_empty() {
        let n = cx.choose(data.len());
        let res = cx.lib("deserialize(list)", || r.get_list(m, Validate::Yes, &mut &data[..n]))?;
        cx.fault("lost_tail");
        cx.check();
        ensure!(res.is_err(), "codec:torn_accepted", "{} of {} bytes of a list of {} {} ({:?}) were accepted", n, data.len(), k, r.name(), m);
    }
    Ok(())
}

/// the medium fails within the last few bytes of a record, or at its very first
fn full<E: Curve>(cx: &mut Cx, r: &Rec<E>, m: Mode, size: usize) -> R {
    let at = match cx.choose(3) {
        0 => size.saturating_sub(1),
        1 => 0,
        _ => size.saturating_sub(1 + cx.choose(40)),
    };
    if at >= size {
        return Ok(());
    }
    for end in [true, false] {
        let f = DevFaults { short: 0, intr: 0, fail_at: Some(at), end };
        let mut w = WDev { data: vec![], f, rng: cx.rng(), shorts: 0, intrs: 0, failed: false };
        let res = cx.lib("serialize(device)", || r.put(m, &mut w))?;
        cx.fault(if end { "device_full" } else { "write_eio" });
        cx.check();
        if res.is_ok() && matches!(r, Rec::Pgens(_)) && end && at + 1 == size {
            cx.finding("PreparedEncryptionGens:final_bool_lost_on_full_device", format!("wrote {} of {} bytes and reported success", at, size))?;
        } else {
            ensure!(res.is_err(), "codec:lost_write_error", "writing {} ({:?}) reported success although the device failed after {} bytes of {}", r.name(), m, at, size);
        }
        let mut b = vec![];
        cx.ok("serialize", || r.put(m, &mut b))?;
        let mut d = RDev { data: &b, pos: 0, f, rng: cx.rng(), shorts: 0, intrs: 0, failed: false };
        let res = cx.lib("deserialize(device)", || r.get(m, Validate::Yes, &mut d))?;
        cx.fault(if end { "read_eof" } else { "read_eio" });
        cx.check();
        ensure!(res.is_err(), "codec:torn_accepted", "a {} ({:?}) was read from a device that failed after {} bytes of {}", r.name(), m, at, size);
    }
    Ok(())
}

/// bytes damaged on the medium, or a record read as another kind: refused, or a valid object
fn corrupt<E: Curve>(cx: &mut Cx, r: &Rec<E>, m: Mode, other: &Rec<E>) -> R {
    let mut b = vec![];
    cx.ok("serialize", || r.put(m, &mut b))?;
    if b.is_empty() {
        return Ok(());
    }
    let mut rng = cx.rng();
    let mut kind = r;
    let what = match cx.choose(7) {
        0 => {
            let i = cx.choose(b.len());
            b[i] ^= 1 << cx.choose(8);
            "bit_flip"
        }
        1 => {
            let i = cx.choose(b.len());
            b[i] = rng.next_u32() as u8;
            "byte_damage"
        }
        2 => {
            let i = cx.choose(b.len());
            let l = (1 + cx.choose(64)).min(b.len() - i);
            rng.fill_bytes(&mut b[i..i + l]);
            "sector_damage"
        }
        3 => {
            let i = cx.choose(b.len());
            let l = (1 + cx.choose(40)).min(b.len() - i);
            b.drain(i..i + l);
            "lost_bytes"
        }
        4 => {
            let i = cx.choose(b.len());
            let l = (1 + cx.choose(40)).min(b.len() - i);
            let x = b[i..i + l].to_vec();
            for (o, y) in x.into_iter().enumerate() {
                b.insert(i + l + o, y);
            }
            "doubled_bytes"
        }
        5 => {
            // a length field blown up
            let i = cx.choose(b.len().min(80));
            let v = [u64::MAX, 1 << 32, 1 << 60, 0, 255][cx.choose(5)].to_le_bytes();
            for (o, y) in v.iter().enumerate() {
                if i + o < b.len() {
                    b[i + o] = *y;
                }
            }
            "length_damage"
        }
        _ => {
            kind = other;
            "wrong_kind"
        }
    };
    let m = if what == "wrong_kind" { kind.mode(m) } else { m };
    cx.fault(what);
    let f = dev(cx);
    let rng = cx.rng();
    let mut d = RDev { data: &b, pos: 0, f, rng, shorts: 0, intrs: 0, failed: false };
    let res = cx.lib("deserialize(damaged)", || kind.get(m, Validate::Yes, &mut d))?;
    note(cx, "read", d.shorts, d.intrs);
    cx.check();
    cx.log(|| format!("{} of {} as {} {:?}: accepted={}", what, r.name(), kind.name(), m, res.is_ok()));
    if let Ok(mut v) = res {
        cx.probe("damaged_but_valid");
        ensure!(v.members(), "codec:invalid_accepted", "{} of a {} read as {} ({:?}) was accepted with an element outside the groups", what, r.name(), kind.name(), m);
    }
    Ok(())
}

/// an element that is not a member of its group, in every encoding
fn forge<E: Curve>(cx: &mut Cx, r: &Rec<E>) -> R {
    let mut bad = r.clone();
    let mut rng = cx.rng();
    let (na, nb, nf) = {
        let (a, b, f) = bad.parts();
        (a.len(), b.len(), f.len())
    };
    if na + nb + nf == 0 {
        return Ok(());
    }
    let i = cx.choose(na + nb + nf);
    let only = |m: Mode| r.mode(m) == m;
    if i < na + nb {
        let off = cx.chance(1, 3);
        let what;
        {
            let (mut a, mut b, _) = bad.parts();
            if i < na {
                what = if off { "G1 point off the curve" } else { "G1 point outside the subgroup" };
                let q = if off { E::g1_off(a[i]) } else { E::g1_outside(&mut rng) };
                *a[i] = q;
                if off && q.is_zero() {
                    return Ok(());
                }
            } else {
                what = if off { "G2 point off the curve" } else { "G2 point outside the subgroup" };
                let q = if off { E::g2_off(b[i - na]) } else { E::g2_outside(&mut rng) };
                *b[i - na] = q;
            }
        }
        cx.fault(if off { "off_curve_point" } else { "small_subgroup_point" });
        let ms: Vec<Mode> = MODES.iter().cloned().filter(|m| only(*m) && (!off || *m == Mode::Uncompressed)).collect();
        for m in ms {
            let mut b = vec![];
            cx.ok("serialize", || bad.put(m, &mut b))?;
            let res = cx.lib("deserialize(forged)", || bad.get(m, Validate::Yes, &mut &b[..]))?;
            cx.check();
            ensure!(res.is_err(), "codec:invalid_accepted", "{} with a {} at element {} was accepted ({:?})", r.name(), what, i, m);
        }
        // read without validation and validated afterwards, as a trusted store does
        ensure!(!cx.lib("check", || bad.valid())?, "codec:invalid_accepted", "the validity check of a {} passes with a {} at element {}", r.name(), what, i);
        // as one of a list
        let k = 1 + cx.choose(if E::REAL { 3 } else { 6 });
        let at = cx.choose(k);
        let m = r.mode(if off { Mode::Uncompressed } else { mode(cx) });
        let mut b = vec![];
        cx.ok("serialize", || r.put_list(&bad, k, at, m, &mut b))?;
        let res = cx.lib("deserialize(forged list)", || r.get_list(m, Validate::Yes, &mut &b[..]))?;
        cx.check();
        ensure!(res.is_err(), "codec:invalid_accepted", "a list of {} {} was accepted with a {} at element {} of number {} ({:?})", k, r.name(), what, i, at, m);
        return Ok(());
    }
    // scalar not reduced: replace its bytes by scalar + modulus (or all ones)
    let k = i - na - nb;
    let s = {
        let (_, _, f) = bad.parts();
        *f[k]
    };
    let le = s.into_bigint().to_bytes_le();
    let width = {
        let mut v = vec![];
        s.serialize_compressed(&mut v).unwrap();
        v.len()
    };
    let le = &le[..width];
    let mut big = s.into_bigint();
    let carry = big.add_with_carry(&F::<E>::MODULUS);
    let over = if carry || cx.chance(1, 3) {
        vec![0xffu8; width]
    } else {
        let v = big.to_bytes_le();
        if v[width..].iter().any(|x| *x != 0) { vec![0xff; width] } else { v[..width].to_vec() }
    };
    cx.fault("unreduced_scalar");
    for m in MODES {
        if !only(m) {
            continue;
        }
        let mut b = vec![];
        cx.ok("serialize", || r.put(m, &mut b))?;
        let (pat, rep): (Vec<u8>, Vec<u8>) = if m == Mode::Json {
            (serde_json::to_vec(&le).unwrap(), serde_json::to_vec(&over).unwrap())
        } else {
            (le.to_vec(), over.clone())
        };
        let at = find(&b, &pat);
        if at.len() != 1 {
            // not stored verbatim, or ambiguous (edge values): nothing to conclude
            cx.probe("scalar_not_found");
            continue;
        }
        b.splice(at[0]..at[0] + pat.len(), rep);
        let res = cx.lib("deserialize(forged)", || r.get(m, Validate::Yes, &mut &b[..]))?;
        cx.check();
        ensure!(res.is_err(), "codec:invalid_accepted", "{} with an unreduced scalar at {} was accepted ({:?})", r.name(), k, m);
    }
    Ok(())
}
