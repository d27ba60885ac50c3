//! C19: a whole election over the library. The statement proved is the application's own (one-hot,
//! approval or budget ballots, optionally with a credential); voters, some of them malicious, a board
//! that verifies and adds, trustees that hold the key and a tallier run in the simulated world.
//! Accepted ballots satisfy the statement and the tallier reads exactly their total.
use crate::cluster::{dec_ark, enc_ark, get, put, short, tree_fold};
use crate::codec::*;
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use crate::sys::*;
use crate::world::*;
use ark_ff::{BigInteger, Field, One, PrimeField, UniformRand, Zero};
use ark_relations::lc;
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError, Variable};
use ark_serialize::CanonicalDeserialize;
use dist_saver::encryption::{Ciphertext, Encryption};
use dist_saver::keygen::*;
use dist_saver::saver_groth16::{self, Proof};
use dist_saver::setup::{EncryptionGens, PreparedEncryptionGens};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    OneHot,
    Approval,
    /// chunks of up to six bits that add up to exactly this
    Budget(u64),
}
#[derive(Clone)]
struct Rule<Fr: Field> {
    kind: Kind,
    /// chunks that may be used; the others are zero
    k: usize,
    n: usize,
    /// w^3 + w + 5 for a credential w
    cred: Option<Fr>,
}
const WIDTH: usize = 6;
fn credential<Fr: Field>(w: Fr) -> Fr {
    w * w * w + w + Fr::from(5u64)
}
impl<Fr: PrimeField> Rule<Fr> {
    fn valid(&self, v: &[Fr]) -> bool {
        let bin = |x: &Fr| x.is_zero() || x.is_one();
        let s: Fr = v.iter().sum();
        v[self.k..].iter().all(|x| x.is_zero())
            && match self.kind {
                Kind::OneHot => v.iter().all(bin) && s.is_one(),
                Kind::Approval => v.iter().all(bin),
                Kind::Budget(b) => v.iter().all(|x| x.into_bigint().num_bits() as usize <= WIDTH) && s == Fr::from(b),
            }
    }
    fn honest(&self, cx: &mut Cx) -> Vec<Chunk> {
        let mut v: Vec<Chunk> = vec![0; self.n];
        match self.kind {
            Kind::OneHot => v[cx.choose(self.k)] = 1,
            Kind::Approval => {
                for x in v[..self.k].iter_mut() {
                    *x = cx.ch.choose(2) as Chunk;
                }
            }
            Kind::Budget(b) => {
                let mut left = b;
                for i in 0..self.k {
                    let x = if i + 1 == self.k { left } else { (cx.choose(1 << WIDTH) as u64).min(left) };
                    let x = x.min((1 << WIDTH) - 1).max(left.saturating_sub(((self.k - 1 - i) * ((1 << WIDTH) - 1)) as u64));
                    v[i] = x as Chunk;
                    left -= x;
                }
            }
        }
        v
    }
    /// the ways to cheat with the content
    fn cheat(&self, cx: &mut Cx) -> Vec<Fr> {
        let mut v: Vec<Fr> = self.honest(cx).iter().map(|x| Fr::from(*x as u64)).collect();
        let i = cx.choose(self.k);
        let j = cx.choose(self.n);
        match cx.choose(8) {
            0 => v[i] += Fr::one(),
            1 => v[i] = Fr::from(2 + cx.choose(60) as u64),
            2 => v[i] = -Fr::one(),
            3 => {
                // the total stays as it is
                v[i] += Fr::one();
                v[j] -= Fr::one();
            }
            4 => v[self.n - 1] += Fr::one(),
            5 => v = vec![Fr::one(); self.n],
            6 => v[i] = Fr::rand(&mut cx.rng()),
            _ => v[i] += Fr::from(2u64).pow([16 * (1 + cx.choose(3)) as u64]),
        }
        v
    }
}
#[derive(Clone)]
struct Ballot<Fr: Field> {
    rule: Rule<Fr>,
    vals: Option<Vec<Fr>>,
    w: Option<Fr>,
}
impl<Fr: PrimeField> ConstraintSynthesizer<Fr> for Ballot<Fr> {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> {
        let miss = SynthesisError::AssignmentMissing;
        let mut xs = vec![];
        for i in 0..self.rule.n {
            let v = self.vals.as_ref().map(|v| v[i]);
            xs.push(cs.new_input_variable(|| v.ok_or(SynthesisError::AssignmentMissing))?);
        }
        let one = lc!() + Variable::One;
        let mut sum = lc!();
        for (i, x) in xs.iter().enumerate() {
            sum += (Fr::one(), *x);
            if i >= self.rule.k {
                cs.enforce_constraint(lc!() + *x, one.clone(), lc!())?;
                continue;
            }
            if let Kind::Budget(_) = self.rule.kind {
                let mut lin = lc!() - *x;
                for b in 0..WIDTH {
                    let v = self.vals.as_ref().map(|v| if v[i].into_bigint().get_bit(b) { Fr::one() } else { Fr::zero() });
                    let w = cs.new_witness_variable(|| v.ok_or(SynthesisError::AssignmentMissing))?;
                    cs.enforce_constraint(lc!() + w, one.clone() - w, lc!())?;
                    lin += (Fr::from(1u64 << b), w);
                }
                cs.enforce_constraint(lin, one.clone(), lc!())?;
            } else {
                cs.enforce_constraint(lc!() + *x, one.clone() - *x, lc!())?;
            }
        }
        match self.rule.kind {
            Kind::OneHot => cs.enforce_constraint(sum, one.clone(), one.clone())?,
            Kind::Budget(b) => cs.enforce_constraint(sum, one.clone(), lc!() + (Fr::from(b), Variable::One))?,
            Kind::Approval => {
                // (an application statement may also carry along what it does not restrict)
                let t = self.vals.as_ref().map(|v| v.iter().sum::<Fr>());
                let w = cs.new_witness_variable(|| t.ok_or(miss))?;
                cs.enforce_constraint(sum, one.clone(), lc!() + w)?;
            }
        }
        if let Some(h) = self.rule.cred {
            let w0 = self.w;
            let w = cs.new_witness_variable(|| w0.ok_or(SynthesisError::AssignmentMissing))?;
            let w2 = cs.new_witness_variable(|| w0.map(|w| w * w).ok_or(SynthesisError::AssignmentMissing))?;
            cs.enforce_constraint(lc!() + w, lc!() + w, lc!() + w2)?;
            cs.enforce_constraint(lc!() + w2, lc!() + w, lc!() + (h - Fr::from(5u64), Variable::One) - w)?;
        }
        Ok(())
    }
}

const K_BALLOT: u8 = 0;
const K_VERDICT: u8 = 1;
const K_SHREQ: u8 = 2;
const K_SHARE: u8 = 3;
const K_RESULT: u8 = 4;
const K_DONE: u8 = 5;

struct Plan<E: Curve> {
    p: Arc<Params<E>>,
    rule: Rule<F<E>>,
    w: F<E>,
    j: Joint<E>,
    /// another election of the same deployment
    other: EncryptionKey<E>,
    dsk: SecretKey<F<E>>,
    dpk: FEncryptionKeyDest<E>,
    /// `Some(kind)` for a malicious voter
    voters: Vec<Option<usize>>,
    votes: Vec<Vec<Chunk>>,
    mode: Mode,
    keep: bool,
    trustees: usize,
}
impl<E: Curve> Plan<E> {
    fn board(&self) -> usize {
        self.trustees
    }
    fn voter(&self, i: usize) -> usize {
        self.trustees + 1 + i
    }
    fn tallier(&self) -> usize {
        self.trustees + 1 + self.voters.len()
    }
    fn total(&self) -> usize {
        self.trustees + 2 + self.voters.len()
    }
}
/// a ballot someone put on the wire, and what is known about it
struct Posted<E: Curve> {
    ct: Ciphertext<E>,
    proof: Proof<E>,
    content: Vec<F<E>>,
    good: bool,
}
struct Truth<E: Curve> {
    /// by hash of the bytes: what is in it if it must be accepted
    known: BTreeMap<u64, Option<Vec<u64>>>,
    posted: Vec<Posted<E>>,
    /// durable acceptances
    accepted: BTreeMap<usize, Vec<u64>>,
    tally: bool,
}
struct Shared<E: Curve> {
    plan: Plan<E>,
    truth: RefCell<Truth<E>>,
}
enum Role<E: Curve> {
    Trustee,
    Board { slots: BTreeMap<usize, Option<(Ciphertext<E>, u64)>>, sum: Option<Ciphertext<E>>, shares: BTreeMap<usize, Share<E>>, order: Vec<usize>, res: Option<Vec<u8>>, done: bool },
    Voter { mine: Option<Vec<u8>>, answered: bool },
    Tallier,
}
struct BNode<E: Curve> {
    me: usize,
    sh: Rc<Shared<E>>,
    role: Role<E>,
    calls: u64,
}
impl<E: Curve> BNode<E> {
    fn new(me: usize, sh: Rc<Shared<E>>) -> Self {
        let mut b = BNode { me, sh, role: Role::Trustee, calls: 0 };
        b.reset();
        b
    }
    fn reset(&mut self) {
        let pl = &self.sh.plan;
        self.role = if self.me < pl.trustees {
            Role::Trustee
        } else if self.me == pl.board() {
            Role::Board { slots: BTreeMap::new(), sum: None, shares: BTreeMap::new(), order: vec![], res: None, done: false }
        } else if self.me == pl.tallier() {
            Role::Tallier
        } else {
            Role::Voter { mine: None, answered: false }
        };
    }
    /// A voter writes its ballot. Everything it says about it goes to the omniscient record only.
    fn cast(&mut self, cx: &mut Cx) -> R<Vec<u8>> {
        let sh = self.sh.clone();
        let pl = &sh.plan;
        let p = &pl.p;
        let v = self.me - pl.voter(0);
        let srs = p.srs.as_ref().unwrap();
        let vals = |m: &[Chunk]| -> Vec<F<E>> { m.iter().map(|x| F::<E>::from(*x as u64)).collect() };
        let vote = pl.votes[v].clone();
        let mut ek = &pl.j.ek;
        let mut proofs = 0;
        let mut prove = |cx: &mut Cx, ek: &EncryptionKey<E>, x: Vec<F<E>>, w: F<E>, r: &F<E>| -> R<Proof<E>> {
            proofs += 1;
            let mut rng = cx.rng();
            let c = Ballot { rule: pl.rule.clone(), vals: Some(x), w: Some(w) };
            cx.ok("create_proof", || saver_groth16::create_proof(c, r, &srs.pk, ek, &mut rng))
        };
        let Some(kind) = pl.voters[v] else {
            let c = encrypt::<E>(cx, p, ek, &vote)?;
            let pr = prove(cx, ek, vals(&vote), pl.w, &c.r)?;
            return self.post(cx, Posted { ct: c.ct, proof: pr, content: vals(&vote), good: true }, None);
        };
        cx.fault("malicious_voter");
        let seen = sh.truth.borrow().posted.iter().enumerate().filter(|(_, x)| x.good).map(|(i, _)| i).collect::<Vec<_>>();
        let pick = |cx: &mut Cx| -> (Ciphertext<E>, Proof<E>, Vec<F<E>>) {
            let t = sh.truth.borrow();
            let x = &t.posted[seen[cx.ch.choose(seen.len())]];
            (x.ct.clone(), x.proof.clone(), x.content.clone())
        };
        let kind = if seen.is_empty() && kind >= 5 { kind % 5 } else { kind };
        let r = F::<E>::rand(&mut cx.rng());
        let mut damage = None;
        let post = match kind {
            0 => {
                // the library's prover on content that breaks the rule
                let x = pl.rule.cheat(cx);
                let good = pl.rule.valid(&x);
                let proof = prove(cx, ek, x.clone(), pl.w, &r)?;
                Posted { ct: crate::verify::forge_ct(p, ek, &x, &r), proof, content: x, good }
            }
            1 => {
                // a proof about another content under the same randomness
                let x = pl.rule.cheat(cx);
                let good = x == vals(&vote);
                let proof = prove(cx, ek, vals(&vote), pl.w, &r)?;
                Posted { ct: crate::verify::forge_ct(p, ek, &x, &r), proof, content: x, good }
            }
            2 => {
                // no credential
                let w = pl.w + F::<E>::one();
                let good = pl.rule.cred.map_or(true, |h| credential(w) == h);
                let proof = prove(cx, ek, vals(&vote), w, &r)?;
                Posted { ct: crate::verify::forge_ct(p, ek, &vals(&vote), &r), proof, content: vals(&vote), good }
            }
            3 => {
                // a ballot for another election
                ek = &pl.other;
                let proof = prove(cx, ek, vals(&vote), pl.w, &r)?;
                Posted { ct: crate::verify::forge_ct(p, ek, &vals(&vote), &r), proof, content: vals(&vote), good: false }
            }
            4 => {
                // damaged on purpose
                damage = Some(cx.choose(4));
                let proof = prove(cx, ek, vals(&vote), pl.w, &r)?;
                Posted { ct: crate::verify::forge_ct(p, ek, &vals(&vote), &r), proof, content: vals(&vote), good: false }
            }
            5 => {
                // somebody else's ballot, as it is
                let (ct, proof, content) = pick(cx);
                Posted { ct, proof, content, good: true }
            }
            6 => {
                // ... rerandomised together with its proof
                let (ct, mut proof, content) = pick(cx);
                let z = crate::verify::forge_ct(p, ek, &vec![F::<E>::zero(); p.n], &r);
                let s: Vec<G1<E>> = to_vec(&ct).iter().zip(to_vec(&z)).map(|(a, b)| add(a, &b)).collect();
                proof.c = add(&proof.c, &mul(&ek.P_2, &r));
                Posted { ct: to_ct(&s), proof, content, good: true }
            }
            7 => {
                // ... with one more vote in it, commitment adjusted
                let (mut ct, proof, mut content) = pick(cx);
                let i = cx.choose(p.n);
                ct.enc_chunks[i] = add(&ct.enc_chunks[i], &p.g[i]);
                ct.commitment = add(&ct.commitment, &ek.Y[i]);
                content[i] += F::<E>::one();
                Posted { ct, proof, content, good: false }
            }
            8 => {
                // ... with a vote moved, so that the sum of the chunks is all the proof sees
                let (mut ct, proof, mut content) = pick(cx);
                let (i, k) = (cx.choose(p.n), cx.choose(p.n));
                let d = if cx.chance(1, 2) { p.g[i] } else { ek.X[i] };
                ct.enc_chunks[i] = add(&ct.enc_chunks[i], &d);
                ct.enc_chunks[k] = sub(&ct.enc_chunks[k], &d);
                if cx.chance(1, 2) {
                    ct.commitment = sub(&add(&ct.commitment, &ek.Y[i]), &ek.Y[k]);
                    content[i] += F::<E>::one();
                    content[k] -= F::<E>::one();
                    if i == k {
                        return self.post(cx, Posted { ct, proof, content, good: true }, None);
                    }
                }
                Posted { ct, proof, content, good: i == k }
            }
            9 => {
                // the sum of two ballots with the proof of one of them
                let (a, proof, x) = pick(cx);
                let (b, proof2, y) = pick(cx);
                let s = cx.ok("add_cts", || Encryption::<E>::add_cts(&to_vec(&a), &to_vec(&b)))?;
                let content: Vec<F<E>> = x.iter().zip(&y).map(|(a, b)| *a + b).collect();
                let mut proof = proof;
                if cx.chance(1, 3) {
                    proof.c = add(&proof.c, &proof2.c);
                }
                Posted { ct: to_ct(&s), proof, content, good: false }
            }
            10 => {
                // somebody's ciphertext, another's proof
                let (ct, _, content) = pick(cx);
                let (other, proof, _) = pick(cx);
                let good = other == ct;
                Posted { ct, proof, content, good }
            }
            _ => {
                // two halves of two ballots
                let (mut ct, proof, content) = pick(cx);
                let (b, _, _) = pick(cx);
                let good = ct == b;
                let cut = cx.choose(p.n + 1);
                for i in cut..p.n {
                    ct.enc_chunks[i] = b.enc_chunks[i];
                }
                if cx.chance(1, 2) {
                    ct.commitment = b.commitment;
                }
                let good = good || (cut == p.n && { let t = sh.truth.borrow(); let x = t.posted.iter().any(|x| x.good && x.ct == ct && x.proof == proof); x });
                Posted { ct, proof, content, good }
            }
        };
        self.post(cx, post, damage)
    }
    fn post(&mut self, cx: &mut Cx, x: Posted<E>, damage: Option<usize>) -> R<Vec<u8>> {
        let sh = self.sh.clone();
        let pl = &sh.plan;
        let mut c = enc(cx, pl.mode, &x.ct)?;
        let mut p = enc_ark(&x.proof);
        match damage {
            Some(0) => {
                let n = cx.choose(c.len());
                c.truncate(n)
            }
            Some(1) => {
                let i = cx.choose(p.len());
                p[i] ^= 1 << cx.choose(8);
            }
            Some(2) => {
                let i = cx.choose(c.len());
                c[i] ^= 1 << cx.choose(8);
            }
            Some(_) => c.clear(),
            None => {}
        }
        let mut m = vec![K_BALLOT];
        put(&mut m, &c);
        put(&mut m, &p);
        let mut t = sh.truth.borrow_mut();
        let content = if x.good && damage.is_none() { Some(x.content.iter().map(|v| v.into_bigint().as_ref()[0]).collect()) } else { None };
        // damage that happens to change nothing is not damage
        let same = damage.is_some() && dec_raw::<Ciphertext<E>>(pl.mode, &c).ok().as_ref() == Some(&x.ct) && Proof::<E>::deserialize_compressed(&p[..]).ok().as_ref() == Some(&x.proof);
        if !same {
            t.known.insert(hbytes(&m), content);
        }
        if damage.is_none() {
            t.posted.push(x);
        }
        Ok(m)
    }
    fn progress(&mut self, io: &mut Io, cx: &mut Cx) -> R {
        let sh = self.sh.clone();
        let pl = &sh.plan;
        let p = &pl.p;
        let Role::Board { slots, sum, shares, order, res, done } = &mut self.role else { return Ok(()) };
        if *done || slots.len() < pl.voters.len() {
            return Ok(());
        }
        let cts: Vec<Ciphertext<E>> = slots.values().flatten().map(|x| x.0.clone()).collect();
        if cts.is_empty() {
            cx.probe("no_ballot_accepted");
            sh.truth.borrow_mut().tally = true;
            *done = true;
            return Ok(());
        }
        if sum.is_none() {
            let w: Vec<F<E>> = {
                let mut r = cx.rng();
                cts.iter().map(|_| F::<E>::rand(&mut r)).collect()
            };
            cx.check();
            ensure!(verdict(cx, "verify_commitments_in_batch", || Encryption::<E>::verify_commitments_in_batch(&cts, &w, pl.j.ek.clone(), p.gens.clone()))?, "election:batch", "the accepted ballots do not verify together");
            let ord = cx.ch.perm(cts.len());
            let items = ord.iter().map(|i| to_vec(&cts[*i])).collect();
            let total = tree_fold(cx, items, |cx, x: &Vec<G1<E>>, y: &Vec<G1<E>>| cx.ok("add_cts", || Encryption::<E>::add_cts(x, y)))?;
            *sum = Some(to_ct(&total));
        }
        if shares.len() < pl.trustees {
            let s = sum.as_ref().unwrap();
            let b = enc(cx, pl.mode, s)?;
            for i in 0..pl.trustees {
                if !shares.contains_key(&i) {
                    let mut m = vec![K_SHREQ];
                    put(&mut m, &b);
                    io.send(i, m);
                }
            }
            return Ok(());
        }
        if res.is_none() {
            let s = sum.clone().unwrap();
            let v = order.iter().map(|i| shares[i].clone()).collect();
            let w = fold_shares::<E>(cx, v)?;
            let (c0, c) = switch::<E>(cx, p, &s, &w)?;
            let mut m = vec![K_RESULT];
            put(&mut m, &enc(cx, pl.mode, &Ciphertext::<E> { X_r: c0, enc_chunks: c, commitment: s.commitment })?);
            *res = Some(m);
        }
        io.send(pl.tallier(), res.clone().unwrap());
        Ok(())
    }
}
impl<E: Curve> Node for BNode<E> {
    fn crash(&mut self) {
        self.reset();
    }
    fn boot(&mut self, io: &mut Io, cx: &mut Cx) -> R {
        let sh = self.sh.clone();
        let pl = &sh.plan;
        let recs = std::mem::take(&mut io.recovered);
        let mut again = false;
        match &mut self.role {
            Role::Trustee | Role::Tallier => {}
            Role::Board { slots, .. } => {
                for r in recs {
                    let v = r[0] as usize;
                    if r[1] == 1 {
                        let mut q = 2;
                        let b = get(&r, &mut q).to_vec();
                        let mut q = 1;
                        let ct: Ciphertext<E> = dec(cx, pl.mode, get(&b, &mut q))?;
                        slots.insert(v, Some((ct, hbytes(&b))));
                        cx.probe("board_recovered_ballot");
                    } else {
                        slots.entry(v).or_insert(None);
                    }
                }
                io.timer(40 * MS, 0);
            }
            Role::Voter { mine, .. } => {
                *mine = recs.last().cloned();
                again = true;
                io.timer(50 * MS, 0);
            }
        }
        if again {
            let Role::Voter { mine, .. } = &self.role else { unreachable!() };
            let b = match mine.clone() {
                Some(b) => {
                    cx.probe("voter_resends_stored_ballot");
                    b
                }
                None => {
                    let b = self.cast(cx)?;
                    if pl.keep {
                        io.persist(b.clone());
                    }
                    b
                }
            };
            let Role::Voter { mine, .. } = &mut self.role else { unreachable!() };
            *mine = Some(b.clone());
            io.send(pl.board(), b);
        }
        self.progress(io, cx)
    }
    fn msg(&mut self, from: usize, d: &[u8], io: &mut Io, cx: &mut Cx) -> R {
        let sh = self.sh.clone();
        let pl = &sh.plan;
        let p = &pl.p;
        let ek = &pl.j.ek;
        let srs = p.srs.as_ref().unwrap();
        let mut go = false;
        match (&mut self.role, d[0]) {
            (Role::Board { slots, .. }, K_BALLOT) => {
                let v = from - pl.voter(0);
                let h = hbytes(d);
                if let Some(old) = slots.get(&v) {
                    // one decision for each voter
                    io.send(from, vec![K_VERDICT, old.is_some() as u8]);
                    return Ok(());
                }
                let mut q = 1;
                let (cb, pb) = (get(d, &mut q), get(d, &mut q));
                let ct = cx.lib("deserialize", || dec_raw::<Ciphertext<E>>(pl.mode, cb))?;
                let proof = Proof::<E>::deserialize_compressed(pb);
                let ok = match (&ct, &proof) {
                    (Ok(ct), Ok(proof)) => {
                        let whole = |cx: &mut Cx| match cx.choose(4) {
                            0 => verdict(cx, "verify_commitment_and_proof", || ct.verify_commitment_and_proof(proof, &srs.pvk, ek.clone(), p.gens.clone())),
                            1 => verdict(cx, "verify_commitment_and_proof(prepared)", || ct.verify_commitment_and_proof(proof, &srs.pvk, PreparedEncryptionKey::from(ek.clone()), p.pgens.clone())),
                            2 => {
                                // in two steps, the proof first
                                let a = verdict(cx, "verify_proof", || saver_groth16::verify_proof(&srs.pvk, proof, ct))?;
                                Ok(a && verdict(cx, "verify_commitment", || ct.verify_commitment(ek.clone(), p.gens.clone()))?)
                            }
                            _ => {
                                let a = verdict(cx, "verify_ciphertext_commitment", || Encryption::<E>::verify_ciphertext_commitment(&ct.X_r, &ct.enc_chunks, &ct.commitment, ek.clone(), p.gens.clone()))?;
                                Ok(verdict(cx, "verify_proof", || saver_groth16::verify_proof(&srs.pvk, proof, ct))? && a)
                            }
                        };
                        whole(cx)?
                    }
                    _ => false,
                };
                cx.check();
                let mut t = sh.truth.borrow_mut();
                t.accepted.remove(&v);
                if let Some(known) = t.known.get(&h).cloned() {
                    let kind = pl.voters[v].map_or("honest".to_string(), |k| format!("malicious (kind {})", k));
                    ensure!(ok || known.is_none(), "election:honest_refused", "the board refuses a ballot of voter {} ({}) that satisfies the statement {:?}", v, kind, pl.rule.kind);
                    ensure!(!ok || known.is_some(), "election:bad_accepted", "the board accepts a ballot of voter {} ({}) that does not satisfy the statement {:?}", v, kind, pl.rule.kind);
                    if let (true, Some(content)) = (ok, known) {
                        t.accepted.insert(v, content);
                    }
                } else if ok {
                    // (a damaged encoding that decodes to the same ballot)
                    t.accepted.insert(v, pl.votes[v].iter().map(|x| *x as u64).collect());
                }
                let mut rec = vec![v as u8, ok as u8];
                if ok {
                    put(&mut rec, d);
                }
                io.persist(rec);
                io.send(from, vec![K_VERDICT, ok as u8]);
                slots.insert(v, if ok { Some((ct.unwrap(), h)) } else { None });
                cx.log(|| format!("t={} board: voter {} {}", io.now, v, ok));
                go = true;
            }
            (Role::Board { shares, order, .. }, K_SHARE) => {
                let mut q = 1;
                let w: Ciphertext<E> = dec(cx, pl.mode, get(d, &mut q))?;
                if !shares.contains_key(&from) {
                    shares.insert(from, (w.enc_chunks, w.X_r));
                    order.push(from);
                } else {
                    cx.probe("second_share_ignored");
                }
                go = true;
            }
            (Role::Board { done, .. }, K_DONE) => *done = true,
            (Role::Trustee, K_SHREQ) => {
                let mut q = 1;
                let s: Ciphertext<E> = dec(cx, pl.mode, get(d, &mut q))?;
                let (w, g) = share::<E>(cx, p, &s, &pl.dpk, &pl.j.sks[self.me])?;
                let mut m = vec![K_SHARE];
                put(&mut m, &enc(cx, pl.mode, &Ciphertext::<E> { X_r: g, enc_chunks: w, commitment: s.commitment })?);
                io.send(from, m);
            }
            (Role::Voter { answered, .. }, K_VERDICT) => *answered = true,
            (Role::Tallier, K_RESULT) => {
                let mut q = 1;
                let c: Ciphertext<E> = dec(cx, pl.mode, get(d, &mut q))?;
                let want: Vec<u32> = {
                    let t = sh.truth.borrow();
                    (0..p.n).map(|i| t.accepted.values().map(|v| v[i] as u32).sum()).collect()
                };
                let mx = want.iter().max().copied().unwrap_or(0);
                let need = (1..=16u8).find(|b| max_of(*b) >= mx).unwrap_or(16);
                let tb = need + cx.choose(3) as u8;
                let got = cx.ok("decrypt_to_chunks_after_re_encryption", || Encryption::<E>::decrypt_to_chunks_after_re_encryption(&c.X_r, &c.enc_chunks, &pl.dsk, &p.g, tb))?;
                let got: Vec<u32> = got.iter().map(|x| *x as u32).collect();
                cx.check();
                ensure!(got == want, "election:tally", "the tallier reads {} where the accepted ballots add up to {}", short(&got), short(&want));
                sh.truth.borrow_mut().tally = true;
                cx.log(|| format!("t={} tally {:?}", io.now, short(&got)));
                io.send(from, vec![K_DONE]);
            }
            _ => {}
        }
        if go {
            self.progress(io, cx)?;
        }
        Ok(())
    }
    fn timer(&mut self, _tag: u64, io: &mut Io, cx: &mut Cx) -> R {
        match &self.role {
            Role::Board { done, .. } => {
                if !*done {
                    self.progress(io, cx)?;
                    io.timer(70 * MS, 0);
                }
            }
            Role::Voter { mine, answered } => {
                if !*answered {
                    io.send(self.sh.plan.board(), mine.clone().unwrap());
                    io.timer(80 * MS, 0);
                }
            }
            _ => {}
        }
        Ok(())
    }
}

pub fn run<E: Curve>(cx: &mut Cx) -> R {
    let bits = if E::REAL { [64u8, 32, 16, 8][cx.ch.weighted(&[3, 2, 1, 1])] } else { [8u8, 4, 16, 2, 1, 6][cx.ch.weighted(&[6, 5, 4, 2, 1, 1])] };
    let n = count::<E>(bits);
    let mut rng = cx.rng();
    let k = if cx.chance(1, 2) { n } else { 1 + cx.choose(n) };
    let w = F::<E>::rand(&mut rng);
    let kind = match cx.choose(3) {
        0 => Kind::OneHot,
        1 => Kind::Approval,
        _ => Kind::Budget(1 + cx.choose((k * 63).min(100)) as u64),
    };
    let rule = Rule { kind, k, n, cred: if cx.chance(1, 2) { Some(credential(w)) } else { None } };
    // the application's own set-up
    let gens = cx.lib("EncryptionGens::new_using_rng", || EncryptionGens::<E>::new_using_rng(&mut rng))?;
    let pgens = cx.lib("PreparedEncryptionGens::from", || PreparedEncryptionGens::from(gens.clone()))?;
    let c = Ballot { rule: rule.clone(), vals: None, w: None };
    let pk = cx.ok("generate_srs", || saver_groth16::generate_srs::<E, _, _>(c, &gens, &mut rng))?;
    let pvk = saver_groth16::prepare_verifying_key(&pk.pk.vk);
    let g = cx.lib("get_gs_for_encryption", || saver_groth16::get_gs_for_encryption(&pk.pk.vk).to_vec())?;
    ensure!(g.len() == n, "srs:shape", "SRS offers {} message generators, {} chunks expected", g.len(), n);
    let (delta, gamma) = (pk.pk.delta_g1, pk.gamma_g1);
    let p = Arc::new(Params { gens, pgens, g, delta, gamma, bits, n, srs: Some(Srs { pk, pvk }), plain: true });
    let trustees = parties(cx, true);
    let j = joint::<E>(cx, &p, trustees)?;
    let other = if cx.chance(1, 2) { joint::<E>(cx, &p, trustees)?.ek } else { dealer::<E>(cx, &p)?.ek };
    let (dsk, dpk) = dest::<E>(cx, &p)?;
    let nv = 1 + cx.choose(if E::REAL { 5 } else { 9 });
    let mut voters = vec![];
    let mut votes = vec![];
    for _ in 0..nv {
        voters.push(if cx.chance(2, 5) { Some(cx.choose(12)) } else { None });
        votes.push(rule.honest(cx));
    }
    for v in &votes {
        ensure!(rule.valid(&v.iter().map(|x| F::<E>::from(*x as u64)).collect::<Vec<_>>()), "harness", "an honest vote {:?} breaks the rule", v);
    }
    let mode = MODES[cx.choose(4)];
    let cfg = FaultCfg::draw(cx);
    cx.sample.insert("curve".into(), E::NAME.into());
    cx.sample.insert("election".into(), format!("{:?} over {} of {} chunks, credential {}, {} trustees, voters {:?}", kind, k, n, rule.cred.is_some(), trustees, voters));
    cx.sample.insert("faults".into(), format!("{:?}", cfg));
    let plan = Plan { p, rule, w, j, other, dsk, dpk, voters, votes, mode, keep: cx.chance(1, 2), trustees };
    let total = plan.total();
    let sh = Rc::new(Shared { plan, truth: RefCell::new(Truth { known: BTreeMap::new(), posted: vec![], accepted: BTreeMap::new(), tally: false }) });
    let mut nodes: Vec<BNode<E>> = (0..total).map(|i| BNode::new(i, sh.clone())).collect();
    let mut world = World::new(total, cfg, cx);
    let sh2 = sh.clone();
    let done = world.run(cx, &mut nodes, 20_000 * MS, 200_000, move |_, _| Ok(sh2.truth.borrow().tally))?;
    cx.check();
    ensure!(done, "liveness", "no tally within 20 simulated seconds after the last fault (faults end at {} ms, now {} ms)", world.until() / MS, world.now / MS);
    cx.nontrivial = true;
    Ok(())
}
