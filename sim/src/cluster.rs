//! The deployed system in one process: key holders running distributed key generation, encryptors,
//! a public board / aggregator, and destination parties, exchanging serialised messages over the
//! simulated network and persisting to simulated disks. All cryptography is the library's.
use crate::codec::*;
use crate::core::*;
use crate::ensure;
use crate::sys::*;
use crate::world::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use dist_saver::encryption::{Ciphertext, Encryption};
use dist_saver::keygen::*;
use dist_saver::saver_groth16::{self, Proof};
use dist_saver::circuit::BitsizeCheckCircuit;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

pub const K_PART: u8 = 1;
pub const K_P1: u8 = 2;
pub const K_NEED: u8 = 3;
pub const K_EKREQ: u8 = 4;
pub const K_EK: u8 = 5;
pub const K_CT: u8 = 6;
pub const K_ACK: u8 = 7;
pub const K_PKREQ: u8 = 8;
pub const K_PK: u8 = 9;
pub const K_SHREQ: u8 = 10;
pub const K_SH: u8 = 11;
pub const K_RES: u8 = 12;
pub const K_RESACK: u8 = 13;

pub struct Session<E: Pairing2> {
    pub p: Arc<Params<E>>,
    pub n: usize,
}
pub trait Pairing2: Curve {}
impl<T: Curve> Pairing2 for T {}

pub struct MsgSpec {
    pub sess: usize,
    pub enc: usize,
    pub chunks: Vec<Chunk>,
    pub proof: bool,
}
pub struct Job {
    pub sess: usize,
    pub msgs: Vec<usize>,
    pub dest: usize,
    pub bits: u8,
    pub sums: Vec<u32>,
    pub decodes: bool,
}
pub struct Plan<E: Curve> {
    pub sessions: Vec<Session<E>>,
    pub n_hold: usize,
    pub n_enc: usize,
    pub n_dest: usize,
    pub msgs: Vec<MsgSpec>,
    pub jobs: Vec<Job>,
    pub mode: Mode,
    pub enc_persist: bool,
}
impl<E: Curve> Plan<E> {
    pub fn board(&self) -> usize {
        self.n_hold
    }
    pub fn encr(&self, i: usize) -> usize {
        self.n_hold + 1 + i
    }
    pub fn dest(&self, i: usize) -> usize {
        self.n_hold + 1 + self.n_enc + i
    }
    pub fn total(&self) -> usize {
        self.n_hold + 1 + self.n_enc + self.n_dest
    }
}

/// What the harness (not the nodes) knows.
pub struct Truth<E: Curve> {
    pub sk: BTreeMap<(usize, usize), SecretKeyST<E>>,
    pub sent_partial: BTreeMap<(usize, usize), u64>,
    pub dest_sk: BTreeMap<usize, SecretKey<F<E>>>,
    pub ek: BTreeMap<usize, EncryptionKey<E>>,
    pub delivered: BTreeMap<usize, u32>,
    pub ek_holders: BTreeMap<(usize, usize), bool>,
}
pub struct Shared<E: Curve> {
    pub plan: Plan<E>,
    pub truth: RefCell<Truth<E>>,
}

pub struct HSess<E: Curve> {
    sk: Option<SecretKeyST<E>>,
    parts: Vec<Option<FEncryptionKeyPartial<E>>>,
    order: Vec<usize>,
    comb: Option<FEncryptionKeyPartial<E>>,
    p1: Vec<Option<P1share<E>>>,
    p1order: Vec<usize>,
    pub ek: Option<EncryptionKey<E>>,
}
impl<E: Curve> HSess<E> {
    fn new(n: usize) -> Self {
        HSess {
            sk: None,
            parts: vec![None; n],
            order: vec![],
            comb: None,
            p1: vec![None; n],
            p1order: vec![],
            ek: None,
        }
    }
}

pub enum Role<E: Curve> {
    Holder { sess: Vec<HSess<E>> },
    Board(BoardSt<E>),
    Encryptor { ek: BTreeMap<usize, EncryptionKey<E>>, cts: BTreeMap<usize, Vec<u8>>, acked: BTreeMap<usize, bool> },
    Dest { sk: Option<(SecretKey<F<E>>, FEncryptionKeyDest<E>)> },
}
pub struct BoardSt<E: Curve> {
    ek: BTreeMap<usize, EncryptionKey<E>>,
    cts: BTreeMap<usize, Ciphertext<E>>,
    order: Vec<usize>,
    pk: BTreeMap<usize, FEncryptionKeyDest<E>>,
    jobs: Vec<JobSt<E>>,
}
struct JobSt<E: Curve> {
    sum: Option<Vec<G1<E>>>,
    shares: Vec<Option<(Vec<G1<E>>, G1<E>)>>,
    order: Vec<usize>,
    res: Option<Vec<u8>>,
    acked: bool,
}
impl<E: Curve> Clone for JobSt<E> {
    fn clone(&self) -> Self {
        JobSt { sum: self.sum.clone(), shares: self.shares.clone(), order: self.order.clone(), res: self.res.clone(), acked: self.acked }
    }
}

pub struct CNode<E: Curve> {
    pub me: usize,
    pub sh: Rc<Shared<E>>,
    pub role: Role<E>,
    calls: u64,
}

fn hdr(k: u8, sess: usize, arg: usize) -> Vec<u8> {
    vec![k, sess as u8, arg as u8, (arg >> 8) as u8]
}
pub fn put(v: &mut Vec<u8>, b: &[u8]) {
    v.extend_from_slice(&(b.len() as u32).to_le_bytes());
    v.extend_from_slice(b);
}
pub fn get<'a>(b: &'a [u8], p: &mut usize) -> &'a [u8] {
    let n = u32::from_le_bytes(b[*p..*p + 4].try_into().unwrap()) as usize;
    *p += 4 + n;
    &b[*p - n..*p]
}
pub fn enc_ark<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.serialize_compressed(&mut v).unwrap();
    v
}
pub fn dec_ark<T: CanonicalDeserialize>(b: &[u8]) -> T {
    T::deserialize_compressed(b).unwrap()
}

/// fold `items` with a binary operation in a random association (a left fold when shrunk)
pub fn tree_fold<T>(cx: &mut Cx, mut items: Vec<T>, mut f: impl FnMut(&mut Cx, &T, &T) -> R<T>) -> R<T> {
    while items.len() > 1 {
        let i = cx.ch.choose(items.len() - 1);
        let b = items.remove(i + 1);
        let r = f(cx, &items[i], &b)?;
        items[i] = r;
    }
    Ok(items.pop().unwrap())
}

pub fn expect_key<E: Curve>(cx: &mut Cx, p: &Params<E>, sks: &[SecretKeyST<E>], ek: &EncryptionKey<E>) -> R {
    cx.check();
    let want = model_joint_key(p, sks);
    if let Some(d) = diff_key(ek, &want) {
        return viol("joint_key:wrong", format!("component {} of the joint key ({} parties, {} chunks) is not what the parties' secrets define", d, sks.len(), p.n));
    }
    let c = cx.ok("supported_chunks_count", || ek.supported_chunks_count())? as usize;
    ensure!(c == p.n, "joint_key:count", "supported_chunks_count {} for {} chunks", c, p.n);
    cx.ok("validate", || ek.validate())?;
    let ck = cx.lib("commitment_key", || ek.commitment_key())?;
    ensure!(ck.len() == p.n + 1 && ck[..p.n] == ek.Y[..] && ck[p.n] == ek.P_1, "joint_key:commitment_key", "commitment key is not Y||P_1");
    Ok(())
}

impl<E: Curve> CNode<E> {
    pub fn new(me: usize, sh: Rc<Shared<E>>) -> Self {
        let mut n = CNode { me, sh, role: Role::Dest { sk: None }, calls: 0 };
        n.reset();
        n
    }
    fn reset(&mut self) {
        let sh = self.sh.clone();
        let pl = &sh.plan;
        self.role = if self.me < pl.n_hold {
            Role::Holder { sess: pl.sessions.iter().map(|s| HSess::new(s.n)).collect() }
        } else if self.me == pl.board() {
            Role::Board(BoardSt {
                ek: BTreeMap::new(),
                cts: BTreeMap::new(),
                order: vec![],
                pk: BTreeMap::new(),
                jobs: pl
                    .jobs
                    .iter()
                    .map(|j| JobSt { sum: None, shares: vec![None; pl.sessions[j.sess].n], order: vec![], res: None, acked: false })
                    .collect(),
            })
        } else if self.me < pl.dest(0) {
            Role::Encryptor { ek: BTreeMap::new(), cts: BTreeMap::new(), acked: BTreeMap::new() }
        } else {
            Role::Dest { sk: None }
        };
    }
    fn rng(&mut self, cx: &Cx, io: &Io) -> SimRng {
        self.calls += 1;
        cx.rng_for(&[self.me as u64, io.boot as u64, self.calls])
    }

    fn try_combine(&mut self, s: usize, io: &mut Io, cx: &mut Cx) -> R {
        let sh = self.sh.clone();
        let pl = &sh.plan;
        let se = &pl.sessions[s];
        let me = self.me;
        let Role::Holder { sess } = &mut self.role else { return Ok(()) };
        let h = &mut sess[s];
        if h.comb.is_none() && h.order.len() == se.n && h.sk.is_some() {
            let list: Vec<_> = h.order.iter().map(|i| h.parts[*i].clone().unwrap()).collect();
            let ord = h.order.clone();
            cx.log(|| format!("node {} combines session {} in order {:?}", me, s, ord));
            if ord.windows(2).any(|w| w[0] > w[1]) {
                cx.probe("combine_out_of_order");
            }
            let c = cx.lib("combineEKs", || combineEKs(&se.p.gamma, &list))?;
            let p1 = cx.lib("genP1share", || genP1share(&c, h.sk.as_ref().unwrap()))?;
            h.comb = Some(c);
            if h.p1[me].is_none() {
                h.p1[me] = Some(p1.clone());
                h.p1order.push(me);
            }
            let b = enc(cx, pl.mode, &p1)?;
            for j in 0..se.n {
                if j != me {
                    let mut m = hdr(K_P1, s, me);
                    m.extend_from_slice(&b);
                    io.send(j, m);
                }
            }
        }
        if h.ek.is_none() && h.comb.is_some() && h.p1order.len() == se.n {
            let list: Vec<_> = h.p1order.iter().map(|i| h.p1[*i].clone().unwrap()).collect();
            let p1 = cx.lib("combineP1share", || combineP1share(&list))?;
            let ek = cx.lib("keygenFinal", || keygenFinal(h.comb.as_ref().unwrap(), &p1))?;
            let mut t = sh.truth.borrow_mut();
            let sks: Vec<_> = (0..se.n).map(|i| t.sk[&(s, i)].clone()).collect();
            expect_key(cx, &se.p, &sks, &ek)?;
            if let Some(o) = t.ek.get(&s) {
                cx.check();
                ensure!(o == &ek, "joint_key:disagree", "party {} ends session {} with another key than an earlier party", me, s);
            } else {
                t.ek.insert(s, ek.clone());
            }
            t.ek_holders.insert((s, me), true);
            cx.log(|| format!("node {} has the joint key of session {}", me, s));
            h.ek = Some(ek);
        }
        Ok(())
    }

    fn board_progress(&mut self, io: &mut Io, cx: &mut Cx) -> R {
        let sh = self.sh.clone();
        let pl = &sh.plan;
        let Role::Board(b) = &mut self.role else { return Ok(()) };
        for (ji, job) in pl.jobs.iter().enumerate() {
            let st = &mut b.jobs[ji];
            if st.acked || st.res.is_some() {
                continue;
            }
            let se = &pl.sessions[job.sess];
            if !b.ek.contains_key(&job.sess) {
                continue;
            }
            if st.sum.is_none() {
                if !job.msgs.iter().all(|m| b.cts.contains_key(m)) {
                    continue;
                }
                let ord: Vec<usize> = b.order.iter().copied().filter(|m| job.msgs.contains(m)).collect();
                let items: Vec<Vec<G1<E>>> = ord.iter().map(|m| flat(&b.cts[m])).collect();
                cx.log(|| format!("board aggregates job {} order {:?}", ji, ord));
                let total = tree_fold(cx, items, |cx, x, y| cx.ok("add_cts", || Encryption::<E>::add_cts(x, y)))?;
                cx.check();
                ensure!(total.len() == se.p.n + 2, "aggregate:shape", "sum of {} ciphertexts has {} elements", ord.len(), total.len());
                let ek = b.ek[&job.sess].clone();
                cx.ok("verify_ciphertext_commitment(sum)", || {
                    Encryption::<E>::verify_ciphertext_commitment(&total[0], &total[1..se.p.n + 1], &total[se.p.n + 1], ek, se.p.gens.clone())
                })?;
                st.sum = Some(total);
            }
            if st.order.len() == se.n {
                if let Some(_pk) = b.pk.get(&job.dest) {
                    let items: Vec<_> = st.order.iter().map(|i| st.shares[*i].clone().unwrap()).collect();
                    let (w, g_r) = tree_fold(cx, items, |cx, x, y| {
                        let (w, g) = cx.ok("combine_re_encrypt_share", || Encryption::<E>::combine_re_encrypt_share(&x.1, &y.1, &x.0, &y.0))?;
                        Ok((w, g))
                    })?;
                    let sumv = st.sum.as_ref().unwrap();
                    let ct = cx.ok("combine_ct_with_w", || Encryption::<E>::combine_ct_with_w(&se.p.gens, &sumv[1..se.p.n + 1], &g_r, &w))?;
                    ensure!(ct.len() == se.p.n + 1, "switch:shape", "switched ciphertext has {} elements", ct.len());
                    let c = Ciphertext::<E> { X_r: ct[0], enc_chunks: ct[1..].to_vec(), commitment: sumv[se.p.n + 1] };
                    let bytes = enc(cx, pl.mode, &c)?;
                    let mut m = hdr(K_RES, job.sess, ji);
                    m.extend_from_slice(&bytes);
                    io.send(pl.dest(job.dest), m.clone());
                    st.res = Some(m);
                }
            }
        }
        Ok(())
    }
    fn request_shares(&mut self, io: &mut Io, cx: &mut Cx) -> R {
        let sh = self.sh.clone();
        let pl = &sh.plan;
        let Role::Board(b) = &mut self.role else { return Ok(()) };
        for (ji, job) in pl.jobs.iter().enumerate() {
            let st = &b.jobs[ji];
            if st.acked {
                continue;
            }
            if let Some(r) = &st.res {
                io.send(pl.dest(job.dest), r.clone());
                continue;
            }
            let (Some(sumv), Some(pk)) = (&st.sum, b.pk.get(&job.dest)) else { continue };
            let n = pl.sessions[job.sess].p.n;
            let c = Ciphertext::<E> { X_r: sumv[0], enc_chunks: sumv[1..n + 1].to_vec(), commitment: sumv[n + 1] };
            let cb = enc(cx, pl.mode, &c)?;
            let pb = enc(cx, pl.mode, pk)?;
            for i in 0..pl.sessions[job.sess].n {
                if st.shares[i].is_none() {
                    let mut m = hdr(K_SHREQ, job.sess, ji);
                    put(&mut m, &cb);
                    put(&mut m, &pb);
                    io.send(i, m);
                }
            }
        }
        Ok(())
    }
    fn encrypt_ready(&mut self, io: &mut Io, cx: &mut Cx) -> R {
        let sh = self.sh.clone();
        let pl = &sh.plan;
        let me = self.me;
        let mut rng = self.rng(cx, io);
        let Role::Encryptor { ek, cts, .. } = &mut self.role else { return Ok(()) };
        for (mi, m) in pl.msgs.iter().enumerate() {
            if pl.encr(m.enc) != me || cts.contains_key(&mi) {
                continue;
            }
            let Some(k) = ek.get(&m.sess) else { continue };
            let se = &pl.sessions[m.sess];
            let (v, r) = cx.ok("encrypt_decomposed_message", || {
                Encryption::<E>::encrypt_decomposed_message(&mut rng, m.chunks.clone(), k, &se.p.g)
            })?;
            cx.check();
            if v != model_ct(&se.p, k, &m.chunks, &r) {
                return viol("encrypt:wrong", format!("ciphertext of message {} is not the encryption of its chunks under the returned randomness", mi));
            }
            let ct = unflat::<E>(&v);
            let mut bytes = hdr(K_CT, m.sess, mi);
            put(&mut bytes, &enc(cx, pl.mode, &ct)?);
            if m.proof {
                let srs = se.p.srs.as_ref().unwrap();
                let circ = BitsizeCheckCircuit::new(se.p.bits, None, Some(m.chunks.iter().map(|c| F::<E>::from(*c as u64)).collect()), true);
                let pr = cx.ok("create_proof", || saver_groth16::create_proof(circ, &r, &srs.pk, k, &mut rng))?;
                put(&mut bytes, &enc_ark(&pr));
            }
            if pl.enc_persist {
                io.persist(bytes.clone());
            }
            io.send(pl.board(), bytes.clone());
            cts.insert(mi, bytes);
        }
        Ok(())
    }
}

pub fn flat<E: Curve>(c: &Ciphertext<E>) -> Vec<G1<E>> {
    let mut v = vec![c.X_r];
    v.extend_from_slice(&c.enc_chunks);
    v.push(c.commitment);
    v
}
pub fn unflat<E: Curve>(v: &[G1<E>]) -> Ciphertext<E> {
    Ciphertext { X_r: v[0], enc_chunks: v[1..v.len() - 1].to_vec(), commitment: v[v.len() - 1] }
}

impl<E: Curve> Node for CNode<E> {
    fn crash(&mut self) {
        self.reset();
    }

    fn boot(&mut self, io: &mut Io, cx: &mut Cx) -> R {
        self.calls = 0;
        let sh = self.sh.clone();
        let pl = &sh.plan;
        let me = self.me;
        let mut rng = self.rng(cx, io);
        let recs = std::mem::take(&mut io.recovered);
        match &mut self.role {
            Role::Holder { sess } => {
                for r in recs {
                    let s = r[0] as usize;
                    let mut p = 1;
                    let sk: SecretKeyST<E> = dec(cx, pl.mode, get(&r, &mut p))?;
                    let part: FEncryptionKeyPartial<E> = dec(cx, pl.mode, get(&r, &mut p))?;
                    cx.check();
                    ensure!(&sk == &sh.truth.borrow().sk[&(s, me)], "durable:secret", "secret recovered from disk differs from the one written");
                    sess[s].sk = Some(sk);
                    sess[s].parts[me] = Some(part);
                    sess[s].order.push(me);
                    cx.probe("holder_recovered_from_disk");
                }
                for s in 0..pl.sessions.len() {
                    let se = &pl.sessions[s];
                    if me >= se.n {
                        continue;
                    }
                    if sess[s].sk.is_none() {
                        let (sk, part) = cx.ok("FkeygenPartial", || {
                            FkeygenPartial(&mut rng, se.p.bits, &se.p.gens, &se.p.g, &se.p.delta, &se.p.gamma)
                        })?;
                        ensure!(sk.s.len() == se.p.n && sk.t.len() == se.p.n + 1, "partial:shape", "secret has {}+{} scalars for {} chunks", sk.s.len(), sk.t.len(), se.p.n);
                        let mut rec = vec![s as u8];
                        put(&mut rec, &enc(cx, pl.mode, &sk)?);
                        put(&mut rec, &enc(cx, pl.mode, &part)?);
                        io.persist(rec);
                        {
                            let mut t = sh.truth.borrow_mut();
                            t.sk.insert((s, me), sk.clone());
                            if se.n == 1 {
                                // an earlier secret that never became durable never left the node
                                t.ek.remove(&s);
                            }
                        }
                        sess[s].sk = Some(sk);
                        sess[s].parts[me] = Some(part);
                        sess[s].order.push(me);
                    }
                    let b = enc(cx, pl.mode, sess[s].parts[me].as_ref().unwrap())?;
                    let h = hbytes(&b);
                    let prev = *sh.truth.borrow_mut().sent_partial.entry((s, me)).or_insert(h);
                    // (a first value overwritten before it was durable was never sent)
                    if prev != h {
                        sh.truth.borrow_mut().sent_partial.insert((s, me), h);
                    }
                    for j in 0..se.n {
                        if j != me {
                            let mut m = hdr(K_PART, s, me);
                            m.extend_from_slice(&b);
                            io.send(j, m);
                        }
                    }
                }
                io.timer(30 * MS, 0);
                for s in 0..pl.sessions.len() {
                    if me < pl.sessions[s].n {
                        self.try_combine(s, io, cx)?;
                    }
                }
            }
            Role::Board(b) => {
                for r in recs {
                    let mi = r[0] as usize | (r[1] as usize) << 8;
                    let ct: Ciphertext<E> = dec(cx, pl.mode, &r[2..])?;
                    b.cts.insert(mi, ct);
                    b.order.push(mi);
                    cx.probe("board_recovered_ciphertext");
                }
                io.timer(20 * MS, 0);
            }
            Role::Encryptor { cts, .. } => {
                for r in recs {
                    cts.insert(r[2] as usize | (r[3] as usize) << 8, r.clone());
                    io.send(pl.board(), r);
                }
                io.timer(25 * MS, 0);
            }
            Role::Dest { sk } => {
                let me_d = me - pl.dest(0);
                for r in recs {
                    let mut p = 0;
                    let s: SecretKey<F<E>> = dec(cx, pl.mode, get(&r, &mut p))?;
                    let k: FEncryptionKeyDest<E> = dec(cx, pl.mode, get(&r, &mut p))?;
                    cx.check();
                    ensure!(Some(&s) == sh.truth.borrow().dest_sk.get(&me_d), "durable:dest", "destination key recovered from disk differs");
                    *sk = Some((s, k));
                }
                if sk.is_none() {
                    // the destination key is bound to the deployment generator of session 0
                    let gens = &pl.sessions[0].p.gens;
                    let (s, k) = cx.ok("Fkeygen_dest", || Fkeygen_dest(&mut rng, gens))?;
                    cx.check();
                    ensure!(k.pk == mul(&gens.G, &s.0), "dest:key", "destination public key does not belong to its secret");
                    let mut rec = vec![];
                    put(&mut rec, &enc(cx, pl.mode, &s)?);
                    put(&mut rec, &enc(cx, pl.mode, &k)?);
                    io.persist(rec);
                    sh.truth.borrow_mut().dest_sk.insert(me_d, s.clone());
                    *sk = Some((s, k));
                }
            }
        }
        Ok(())
    }

    fn msg(&mut self, from: usize, d: &[u8], io: &mut Io, cx: &mut Cx) -> R {
        let sh = self.sh.clone();
        let pl = &sh.plan;
        let me = self.me;
        let (k, s, arg) = (d[0], d[1] as usize, d[2] as usize | (d[3] as usize) << 8);
        let body = &d[4..];
        let mut rng = self.rng(cx, io);
        match &mut self.role {
            Role::Holder { sess } => match k {
                K_PART => {
                    let part: FEncryptionKeyPartial<E> = dec(cx, pl.mode, body)?;
                    let h = &mut sess[s];
                    if h.parts[arg].is_none() {
                        h.parts[arg] = Some(part);
                        h.order.push(arg);
                    } else {
                        cx.probe("duplicate_partial_ignored");
                        ensure!(h.parts[arg].as_ref() == Some(&part), "partial:equivocation", "party {} sent two different shares in session {}", arg, s);
                    }
                    self.try_combine(s, io, cx)?;
                }
                K_P1 => {
                    let p1: P1share<E> = dec(cx, pl.mode, body)?;
                    let h = &mut sess[s];
                    if h.comb.is_none() {
                        cx.probe("p1_share_before_combine");
                    }
                    if h.p1[arg].is_none() {
                        h.p1[arg] = Some(p1);
                        h.p1order.push(arg);
                    } else {
                        cx.check();
                        ensure!(h.p1[arg].as_ref() == Some(&p1), "p1:unstable", "party {} produced two different second-round shares from the same inputs", arg);
                    }
                    self.try_combine(s, io, cx)?;
                }
                K_NEED => {
                    let h = &sess[s];
                    if body[0] == 1 {
                        if let Some(p) = &h.parts[me] {
                            let mut m = hdr(K_PART, s, me);
                            m.extend_from_slice(&enc(cx, pl.mode, p)?);
                            io.send(from, m);
                        }
                    } else if let Some(p) = &h.p1[me] {
                        let mut m = hdr(K_P1, s, me);
                        m.extend_from_slice(&enc(cx, pl.mode, p)?);
                        io.send(from, m);
                    }
                }
                K_EKREQ => {
                    if let Some(ek) = &sess[s].ek {
                        let mut m = hdr(K_EK, s, 0);
                        m.extend_from_slice(&enc(cx, pl.mode, ek)?);
                        io.send(from, m);
                    }
                }
                K_SHREQ => {
                    let se = &pl.sessions[s];
                    let mut p = 0;
                    let ct: Ciphertext<E> = dec(cx, pl.mode, get(body, &mut p))?;
                    let pk: FEncryptionKeyDest<E> = dec(cx, pl.mode, get(body, &mut p))?;
                    let Some(sk) = &sess[s].sk else { return Ok(()) };
                    let (w, g_r) = cx.ok("re_encrypt_share", || {
                        Encryption::<E>::re_encrypt_share(&mut rng, &se.p.gens, &ct.X_r, &ct.enc_chunks, &pk, sk)
                    })?;
                    cx.check();
                    let d = pl.jobs[arg].dest;
                    if let Some(ds) = sh.truth.borrow().dest_sk.get(&d) {
                        let mask = mul(&g_r, &ds.0);
                        ensure!(w.len() == se.p.n, "share:shape", "share has {} elements", w.len());
                        for j in 0..se.p.n {
                            let want = sub(&mask, &mul(&ct.X_r, &sk.s[j]));
                            ensure!(w[j] == want, "share:wrong", "re-encryption share of party {} is wrong at chunk {}", me, j);
                        }
                    }
                    let mut m = hdr(K_SH, s, arg);
                    let wrapped = Ciphertext::<E> { X_r: g_r, enc_chunks: w, commitment: pk.pk };
                    m.extend_from_slice(&enc(cx, pl.mode, &wrapped)?);
                    io.send(from, m);
                }
                _ => {}
            },
            Role::Board(b) => match k {
                K_EK => {
                    let ek: EncryptionKey<E> = dec(cx, pl.mode, body)?;
                    b.ek.entry(s).or_insert(ek);
                }
                K_PK => {
                    let pk: FEncryptionKeyDest<E> = dec(cx, pl.mode, body)?;
                    b.pk.entry(arg).or_insert(pk);
                }
                K_CT => {
                    if b.cts.contains_key(&arg) {
                        cx.probe("duplicate_ciphertext_ignored");
                        io.send(from, hdr(K_ACK, s, arg));
                        return Ok(());
                    }
                    let Some(ek) = b.ek.get(&s) else { return Ok(()) };
                    let se = &pl.sessions[s];
                    let mut p = 0;
                    let ct: Ciphertext<E> = dec(cx, pl.mode, get(body, &mut p))?;
                    if pl.msgs[arg].proof {
                        let pr: Proof<E> = dec_ark(get(body, &mut p));
                        let srs = se.p.srs.as_ref().unwrap();
                        cx.ok("verify_commitment_and_proof", || ct.verify_commitment_and_proof(&pr, &srs.pvk, ek.clone(), se.p.gens.clone()))?;
                    } else {
                        cx.ok("verify_commitment", || ct.verify_commitment(ek.clone(), se.p.gens.clone()))?;
                    }
                    cx.check();
                    let mut rec = vec![arg as u8, (arg >> 8) as u8];
                    rec.extend_from_slice(&enc(cx, pl.mode, &ct)?);
                    io.persist(rec);
                    io.send(from, hdr(K_ACK, s, arg));
                    b.cts.insert(arg, ct);
                    b.order.push(arg);
                    self.board_progress(io, cx)?;
                }
                K_SH => {
                    let st = &mut b.jobs[arg];
                    if st.sum.is_some() && st.shares[from].is_none() {
                        let w: Ciphertext<E> = dec(cx, pl.mode, body)?;
                        st.shares[from] = Some((w.enc_chunks, w.X_r));
                        st.order.push(from);
                        self.board_progress(io, cx)?;
                    } else {
                        cx.probe("late_or_duplicate_share_ignored");
                    }
                }
                K_RESACK => b.jobs[arg].acked = true,
                _ => {}
            },
            Role::Encryptor { ek, acked, .. } => match k {
                K_EK => {
                    if !ek.contains_key(&s) {
                        let e: EncryptionKey<E> = dec(cx, pl.mode, body)?;
                        ek.insert(s, e);
                        self.encrypt_ready(io, cx)?;
                    }
                }
                K_ACK => {
                    acked.insert(arg, true);
                }
                _ => {}
            },
            Role::Dest { sk } => match k {
                K_PKREQ => {
                    if let Some((_, pk)) = sk {
                        let mut m = hdr(K_PK, 0, me - pl.dest(0));
                        m.extend_from_slice(&enc(cx, pl.mode, pk)?);
                        io.send(from, m);
                    }
                }
                K_RES => {
                    let Some((sk, _)) = sk else { return Ok(()) };
                    let c: Ciphertext<E> = dec(cx, pl.mode, body)?;
                    let job = &pl.jobs[arg];
                    let se = &pl.sessions[job.sess];
                    let got = cx.lib("decrypt_to_chunks_after_re_encryption", || {
                        Encryption::<E>::decrypt_to_chunks_after_re_encryption(&c.X_r, &c.enc_chunks, sk, &se.p.g, job.bits)
                    })?;
                    cx.check();
                    match got {
                        Ok(v) => {
                            let v: Vec<u32> = v.iter().map(|x| *x as u32).collect();
                            ensure!(job.decodes, "collective:overflow", "job {} decodes to {:?} although a sum exceeds {} bits", arg, short(&v), job.bits);
                            ensure!(v == job.sums, "collective:wrong", "job {} over {} messages and {} parties decrypts to {:?}, expected {:?}", arg, job.msgs.len(), se.n, short(&v), short(&job.sums));
                        }
                        Err(e) => {
                            ensure!(!job.decodes, "collective:refused", "job {} does not decrypt: {:?}; expected {:?} within {} bits", arg, e, short(&job.sums), job.bits);
                            cx.probe("sum_out_of_range_refused");
                        }
                    }
                    *sh.truth.borrow_mut().delivered.entry(arg).or_default() += 1;
                    cx.log(|| format!("dest {} job {} delivered", me, arg));
                    io.send(from, hdr(K_RESACK, s, arg));
                }
                _ => {}
            },
        }
        Ok(())
    }

    fn timer(&mut self, _tag: u64, io: &mut Io, cx: &mut Cx) -> R {
        let sh = self.sh.clone();
        let pl = &sh.plan;
        let me = self.me;
        match &mut self.role {
            Role::Holder { sess } => {
                for s in 0..pl.sessions.len() {
                    let se = &pl.sessions[s];
                    if me >= se.n || sess[s].ek.is_some() {
                        continue;
                    }
                    for j in 0..se.n {
                        if j != me && sess[s].parts[j].is_none() {
                            let mut m = hdr(K_NEED, s, me);
                            m.push(1);
                            io.send(j, m);
                        }
                        if j != me && sess[s].comb.is_some() && sess[s].p1[j].is_none() {
                            let mut m = hdr(K_NEED, s, me);
                            m.push(2);
                            io.send(j, m);
                        }
                    }
                }
                io.timer(60 * MS, 0);
            }
            Role::Board(b) => {
                for s in 0..pl.sessions.len() {
                    if !b.ek.contains_key(&s) && pl.msgs.iter().any(|m| m.sess == s) {
                        let h = cx.ch.choose(pl.sessions[s].n);
                        io.send(h, hdr(K_EKREQ, s, 0));
                    }
                }
                for dd in 0..pl.n_dest {
                    if !b.pk.contains_key(&dd) {
                        io.send(pl.dest(dd), hdr(K_PKREQ, 0, 0));
                    }
                }
                let all_ek = pl.jobs.iter().all(|j| b.ek.contains_key(&j.sess));
                if all_ek {
                    self.board_progress(io, cx)?;
                    self.request_shares(io, cx)?;
                }
                io.timer(70 * MS, 0);
            }
            Role::Encryptor { ek, cts, acked } => {
                for s in 0..pl.sessions.len() {
                    if !ek.contains_key(&s) && pl.msgs.iter().any(|m| m.sess == s && pl.encr(m.enc) == me) {
                        let h = cx.ch.choose(pl.sessions[s].n);
                        io.send(h, hdr(K_EKREQ, s, 0));
                    }
                }
                for (mi, b) in cts.iter() {
                    if !acked.contains_key(mi) {
                        io.send(pl.board(), b.clone());
                    }
                }
                io.timer(80 * MS, 0);
            }
            Role::Dest { .. } => {}
        }
        Ok(())
    }
}

pub fn short(v: &[u32]) -> String {
    if v.len() <= 8 {
        format!("{:?}", v)
    } else {
        format!("{:?}..({})", &v[..8], v.len())
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Keygen,
    Collective,
    Aggregate,
}

pub fn draw_bits<E: Curve>(cx: &mut Cx, snark: bool) -> u8 {
    if E::REAL {
        if snark {
            // real curve: SRSs are shared per process, keep to two circuit sizes
            [64u8, 4][cx.ch.weighted(&[5, 1])]
        } else {
            [64u8, 32, 16, 8, 4, 128, 3, 2, 1][cx.ch.weighted(&[6, 4, 2, 2, 2, 1, 1, 1, 3])]
        }
    } else if snark {
        [8u8, 16, 4, 12, 20, 31][cx.ch.weighted(&[6, 4, 4, 1, 1, 1])]
    } else {
        match cx.ch.weighted(&[6, 4, 4, 2]) {
            0 => 8,
            1 => 4,
            2 => 16,
            _ => [1u8, 2, 3, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 20, 30, 31, 60, 61, 64][cx.choose(19)],
        }
    }
}

/// more parties than a byte counts, driven without the network
fn run_mass<E: Curve>(cx: &mut Cx, focus: Focus) -> R {
    use crate::kit::*;
    let bits = [31u8, 61, 20, 16][cx.choose(4)];
    let p = params::<E>(cx, bits, false, 0, false)?;
    let n = 250 + cx.choose(20);
    let j = joint::<E>(cx, &p, n)?;
    cx.probe("more_than_250_parties");
    if focus != Focus::Keygen {
        let (dsk, dpk) = dest::<E>(cx, &p)?;
        let m = gen_msg(cx, p.n, 6);
        let c = encrypt::<E>(cx, &p, &j.ek, &m)?;
        let mut sh = vec![];
        for i in cx.ch.perm(n) {
            sh.push(share::<E>(cx, &p, &c.ct, &dpk, &j.sks[i])?);
        }
        let s = fold_shares::<E>(cx, sh)?;
        let (c0, v) = switch::<E>(cx, &p, &c.ct, &s)?;
        let got = cx.ok("decrypt_to_chunks_after_re_encryption", || Encryption::<E>::decrypt_to_chunks_after_re_encryption(&c0, &v, &dsk, &p.g, 6))?;
        cx.check();
        ensure!(got == m, "delivery:wrong", "the shares of {} parties deliver {:?} instead of {:?}", n, got, m);
    }
    cx.nontrivial = true;
    cx.log(|| format!("{} parties, {} bits", n, bits));
    cx.sample.insert("curve".into(), E::NAME.into());
    cx.sample.insert("parties".into(), n.to_string());
    Ok(())
}

pub fn run_cluster<E: Curve>(cx: &mut Cx, focus: Focus) -> R {
    if !E::REAL && matches!(focus, Focus::Keygen | Focus::Collective) && cx.chance(1, 400) {
        return run_mass::<E>(cx, focus);
    }
    let nsess = 1 + cx.ch.weighted(&[5, 2, 1]);
    let mut sessions: Vec<Session<E>> = vec![];
    let maxn = if E::REAL { 4 } else if cx.thorough { 12 } else { 9 };
    let mut bits0 = 0;
    let mut n_hold = 0;
    for i in 0..nsess {
        let n = match cx.ch.weighted(&[1, 4, 6, 3, 2]) {
            0 => 1,
            1 => 2,
            2 => 3,
            3 => 4,
            _ => 5 + cx.choose(maxn),
        }
        .min(maxn);
        n_hold = n_hold.max(n);
        let snark = focus != Focus::Keygen && cx.chance(1, if E::REAL { 4 } else { 2 });
        let bits = draw_bits::<E>(cx, snark);
        let p = if i > 0 && cx.chance(1, 2) {
            // a second session over the very same public parameters
            sessions[0].p.clone()
        } else {
            let fresh = !E::REAL && cx.chance(1, 10);
            let idx = cx.choose(2) as u64;
            params::<E>(cx, bits, snark, if E::REAL { 0 } else { idx }, fresh)?
        };
        if i == 0 {
            bits0 = bits;
        }
        sessions.push(Session { p, n });
    }
    // destination keys live on session 0's generator: other sessions' jobs need the same gens
    let (n_enc, n_dest);
    let mut msgs = vec![];
    let mut jobs: Vec<Job> = vec![];
    if focus == Focus::Keygen {
        n_enc = 0;
        n_dest = 0;
    } else {
        n_enc = 1 + cx.choose(3);
        n_dest = 1 + cx.choose(2);
        let njobs = 1 + cx.choose(if E::REAL { 1 } else { 3 });
        for _ in 0..njobs {
            let cand: Vec<usize> =
                (0..nsess).filter(|s| sessions[*s].p.gens == sessions[0].p.gens).collect();
            let sess = *cx.ch.pick(&cand);
            let p = sessions[sess].p.clone();
            let cap = if focus == Focus::Aggregate { if E::REAL { 4 } else { 12 } } else { 1 };
            let k = if cap == 1 { 1 } else { 1 + cx.choose(cap) };
            let vb = p.bits.min(if E::REAL { 8 } else { 16 });
            let mut mine = vec![];
            for _ in 0..k {
                // jobs may share messages
                let old: Vec<usize> = (0..msgs.len()).filter(|m| { let m: &MsgSpec = &msgs[*m]; m.sess == sess }).collect();
                if !old.is_empty() && cx.chance(1, 5) {
                    let c = *cx.ch.pick(&old);
                    if !mine.contains(&c) {
                        mine.push(c);
                        continue;
                    }
                }
                let chunks = gen_msg(cx, p.n, vb);
                let proof = p.srs.is_some() && cx.chance(1, 2);
                msgs.push(MsgSpec { sess, enc: cx.choose(n_enc), chunks, proof });
                mine.push(msgs.len() - 1);
            }
            let sums: Vec<u32> =
                (0..p.n).map(|j| mine.iter().map(|m| msgs[*m].chunks[j] as u32).sum()).collect();
            let mx = *sums.iter().max().unwrap();
            let need = (1..=16u8).find(|b| max_of(*b) >= mx).unwrap_or(16);
            let bits = match cx.ch.weighted(&[6, 2, 2]) {
                0 => need,
                1 => (need + 1 + cx.choose(2) as u8).min(16),
                // (up to 10 bits: a refusal costs a full search)
                _ => if need > 1 && need <= 11 { need - 1 } else { need },
            };
            let decodes = mx <= max_of(bits);
            jobs.push(Job { sess, msgs: mine, dest: cx.choose(n_dest), bits, sums, decodes });
        }
    }
    let mode = MODES[cx.choose(4)];
    let enc_persist = cx.chance(1, 2);
    let cfg = FaultCfg::draw(cx);
    cx.sample.insert("curve".into(), E::NAME.into());
    cx.sample.insert("holders".into(), format!("{:?}", sessions.iter().map(|s| s.n).collect::<Vec<_>>()));
    cx.sample.insert("chunks".into(), format!("{:?}", sessions.iter().map(|s| (s.p.bits, s.p.n)).collect::<Vec<_>>()));
    cx.sample.insert("jobs".into(), format!("{:?}", jobs.iter().map(|j| (j.msgs.len(), j.bits, j.decodes)).collect::<Vec<_>>()));
    cx.sample.insert("wire".into(), format!("{:?}", mode));
    cx.sample.insert("faults".into(), format!("{:?}", cfg));
    let _ = bits0;
    cx.probe(if nsess > 1 { "several_sessions" } else { "one_session" });
    if sessions.iter().any(|s| s.n == 1) {
        cx.probe("single_holder");
    }
    if sessions.iter().any(|s| s.n >= 6) {
        cx.probe("six_or_more_holders");
    }
    if jobs.iter().any(|j| j.msgs.len() >= 8) {
        cx.probe("eight_or_more_summands");
    }
    if sessions.iter().any(|s| s.n > 1) {
        cx.nontrivial = true;
    }
    let plan = Plan { sessions, n_hold, n_enc, n_dest, msgs, jobs, mode, enc_persist };
    let total = plan.total();
    let sh = Rc::new(Shared {
        plan,
        truth: RefCell::new(Truth {
            sk: BTreeMap::new(),
            sent_partial: BTreeMap::new(),
            dest_sk: BTreeMap::new(),
            ek: BTreeMap::new(),
            delivered: BTreeMap::new(),
            ek_holders: BTreeMap::new(),
        }),
    });
    let mut nodes: Vec<CNode<E>> = (0..total).map(|i| CNode::new(i, sh.clone())).collect();
    let mut w = World::new(total, cfg, cx);
    let sh2 = sh.clone();
    let until = w_until(&w);
    let done = w.run(cx, &mut nodes, 20_000 * MS, 400_000, move |_cx, nodes| {
        let pl = &sh2.plan;
        let t = sh2.truth.borrow();
        for s in 0..pl.sessions.len() {
            for i in 0..pl.sessions[s].n {
                let Role::Holder { sess } = &nodes[i].role else { return Ok(false) };
                if sess[s].ek.is_none() {
                    return Ok(false);
                }
            }
        }
        Ok((0..pl.jobs.len()).all(|j| t.delivered.contains_key(&j)))
    })?;
    cx.check();
    if !done {
        return viol(
            "liveness",
            format!("no completion within 20 simulated seconds after the last fault (faults end at {} ms, now {} ms)", until / MS, w.now / MS),
        );
    }
    cx.probe("completed");
    Ok(())
}
fn w_until(w: &World) -> Us {
    w.until()
}
