//! C17: the life of secret key objects in nodes that restart, replace, clone, store, unwind and drop
//! them. The simulator's allocator keeps what a watched block held when it was given back.
use crate::cluster::draw_bits;
use crate::codec::*;
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use crate::sys::*;
use ark_ec::AffineRepr;
use ark_ff::{UniformRand, Zero};
use dist_saver::encryption::Encryption;
use dist_saver::keygen::*;
use rayon_core::sim;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use zeroize::Zeroize;

/// memory of the simulated nodes: the system allocator, and a look at watched blocks on the way back
pub struct Memory;
static ARMED: AtomicBool = AtomicBool::new(false);
const SLOTS: usize = 8;
static WATCH: [[AtomicUsize; 3]; SLOTS] = [const { [const { AtomicUsize::new(0) }; 3] }; SLOTS];
const ROOM: usize = 512 * 64;
static LEFT: Mutex<[u8; ROOM]> = Mutex::new([0; ROOM]);

unsafe impl GlobalAlloc for Memory {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ARMED.load(SeqCst) {
            freed(p, l.size());
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ARMED.load(SeqCst) {
            freed(p, l.size());
        }
        System.dealloc(p, l)
    }
}
/// remember what the block held
unsafe fn freed(p: *mut u8, size: usize) {
    for (i, w) in WATCH.iter().enumerate() {
        let (at, len) = (w[0].load(SeqCst), w[1].load(SeqCst));
        if at != 0 && len != 0 && (p as usize) <= at && at + len <= p as usize + size && w[2].swap(1, SeqCst) == 0 {
            let mut left = LEFT.lock().unwrap();
            let room = ROOM / SLOTS;
            for k in 0..len.min(room) {
                left[i * room + k] = std::ptr::read_volatile((at + k) as *const u8);
            }
        }
    }
}
/// a watched range and the secrets it holds
struct Range {
    at: usize,
    len: usize,
    was: Vec<u8>,
}
fn range<T>(p: *const T, n: usize) -> Range {
    let len = (n * std::mem::size_of::<T>()).min(ROOM / SLOTS);
    let was = (0..len).map(|k| unsafe { std::ptr::read_volatile((p as usize + k) as *const u8) }).collect();
    Range { at: p as usize, len, was }
}
/// run `f`, which gives the ranges back; what was in them then (None: not given back)
fn watch(rs: &[Range], f: impl FnOnce()) -> Vec<Option<Vec<u8>>> {
    assert!(rs.len() <= SLOTS);
    for (i, r) in rs.iter().enumerate() {
        WATCH[i][2].store(0, SeqCst);
        WATCH[i][1].store(r.len, SeqCst);
        WATCH[i][0].store(r.at, SeqCst);
    }
    ARMED.store(true, SeqCst);
    f();
    ARMED.store(false, SeqCst);
    let left = LEFT.lock().unwrap();
    let room = ROOM / SLOTS;
    (0..rs.len())
        .map(|i| {
            WATCH[i][0].store(0, SeqCst);
            (WATCH[i][2].load(SeqCst) == 1).then(|| left[i * room..i * room + rs[i].len].to_vec())
        })
        .collect()
}

enum Key<E: Curve> {
    One(Box<SecretKey<F<E>>>),
    Many(Box<SecretKeyST<E>>),
}
impl<E: Curve> Key<E> {
    fn ranges(&self) -> Vec<Range> {
        match self {
            Key::One(k) => vec![range(&k.0 as *const F<E>, 1)],
            Key::Many(k) => vec![range(k.s.as_ptr(), k.s.len()), range(k.t.as_ptr(), k.t.len())],
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Key::One(_) => "secret key",
            Key::Many(_) => "share holder's secret key",
        }
    }
    fn class(&self) -> &'static str {
        match self {
            Key::One(_) => "erase:secret_key",
            Key::Many(_) => "erase:share_secret",
        }
    }
    fn scalars(&self) -> Vec<F<E>> {
        match self {
            Key::One(k) => vec![k.0],
            Key::Many(k) => k.s.iter().chain(k.t.iter()).cloned().collect(),
        }
    }
}

pub fn run<E: Curve>(cx: &mut Cx) -> R {
    let outer = sim::save();
    sim::install(sim::Policy::Sequential, 0, 1);
    let bits = if E::REAL { [64u8, 8, 2, 1][cx.ch.weighted(&[3, 2, 1, 1])] } else { draw_bits::<E>(cx, false) };
    let p = params::<E>(cx, bits, false, 0, false)?;
    let n = 1 + cx.choose(3);
    let j = joint::<E>(cx, &p, n)?;
    let d = dealer::<E>(cx, &p)?;
    let m = gen_msg(cx, p.n, bits.min(4));
    let ct = encrypt::<E>(cx, &p, &j.ek, &m)?;
    let dct = encrypt::<E>(cx, &p, &d.ek, &m)?;
    let mut held: Vec<(Key<E>, Vec<F<E>>)> = vec![];
    let steps = if E::REAL { 5 } else { 6 + cx.choose(12) };
    for _ in 0..steps {
        if held.is_empty() || (held.len() < 5 && cx.chance(1, 2)) {
            // a key arrives: generated, copied or read back from storage
            let mut rng = cx.rng();
            let k: Key<E> = match cx.choose(5) {
                0 => Key::One(Box::new(cx.ok("Fkeygen_dest", || Fkeygen_dest::<_, E>(&mut rng, &p.gens))?.0)),
                1 => Key::Many(Box::new(cx.ok("FkeygenPartial", || FkeygenPartial::<_, E>(&mut rng, p.bits, &p.gens, &p.g, &p.delta, &p.gamma))?.0)),
                2 => Key::One(Box::new(d.sk.clone())),
                3 => Key::Many(Box::new(j.sks[cx.choose(n)].clone())),
                _ => {
                    let md = mode(cx);
                    cx.fault("key_read_back");
                    if cx.chance(1, 2) {
                        Key::One(Box::new(ship(cx, md, &d.sk)?))
                    } else {
                        let i = cx.choose(n);
                        Key::Many(Box::new(ship(cx, md, &j.sks[i])?))
                    }
                }
            };
            let s = k.scalars();
            cx.log(|| format!("{} with {} scalars arrives", k.name(), s.len()));
            held.push((k, s));
            continue;
        }
        // in use: operations leave it as it is
        let i = cx.choose(held.len());
        if cx.chance(1, 3) {
            match &held[i].0 {
                Key::One(k) => {
                    let _ = cx.lib("decrypt_to_chunks", || Encryption::<E>::decrypt_to_chunks(&dct.ct.X_r, &dct.ct.enc_chunks, k, d.dk.clone(), &p.g, bits.min(4)))?;
                }
                Key::Many(k) => {
                    let mut rng = cx.rng();
                    let (_, pk) = dest::<E>(cx, &p)?;
                    let _ = cx.lib("re_encrypt_share", || Encryption::<E>::re_encrypt_share(&mut rng, &p.gens, &ct.ct.X_r, &ct.ct.enc_chunks, &pk, k))?;
                    let _ = cx.lib("genP1share", || genP1share(&j.comb, k))?;
                }
            }
            cx.probe("key_used");
        }
        let (k, s) = held.swap_remove(i);
        cx.check();
        ensure!(k.scalars() == s, "erase:changed", "the {} changed while it was held", k.name());
        let (name, class) = (k.name(), k.class());
        let rs = k.ranges();
        let mut rng = cx.rng();
        let fresh = F::<E>::rand(&mut rng);
        let how = cx.choose(7);
        let mut rest: Option<Key<E>> = None;
        let words = ["dropped", "replaced", "dropped by a crash that unwinds", "dropped on another thread", "dropped with its owner's list", "erased on request", "moved out and dropped"];
        let left = watch(&rs, || match how {
            0 => drop(k),
            1 => match k {
                Key::One(mut b) => {
                    // the box stays, its content is replaced: looked at in place below
                    *b = SecretKey(fresh);
                    rest = Some(Key::One(b));
                }
                Key::Many(mut b) => {
                    *b = SecretKeyST { s: vec![fresh], t: vec![fresh, fresh] };
                    rest = Some(Key::Many(b));
                }
            },
            2 => {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    let _held = k;
                    std::panic::resume_unwind(Box::new("crash"));
                }));
            }
            3 => {
                std::thread::scope(|s| s.spawn(move || drop(k)).join()).unwrap();
            }
            4 => {
                let v = vec![Some(k), None];
                drop(v);
            }
            5 => match k {
                Key::One(mut b) => {
                    b.zeroize();
                    rest = Some(Key::One(b));
                }
                Key::Many(b) => drop(b),
            },
            _ => match k {
                Key::One(b) => drop(b),
                Key::Many(b) => {
                    let x: SecretKeyST<E> = *b;
                    drop(x);
                }
            },
        });
        cx.fault(&format!("key {}", words[how]));
        for (r, l) in rs.iter().zip(left) {
            let now = match l {
                Some(l) => l,
                // still allocated: look in place
                None => (0..r.len).map(|k| unsafe { std::ptr::read_volatile((r.at + k) as *const u8) }).collect(),
            };
            cx.check();
            // any scalar that is still there
            let w = std::mem::size_of::<F<E>>();
            let alive = r.was.chunks(w).zip(now.chunks(w)).filter(|(a, b)| a == b && a.iter().any(|x| *x != 0)).count();
            cx.log(|| format!("{} {}: {} of {} scalars left", name, words[how], alive, r.was.len() / w));
            ensure!(alive == 0, class, "{} of {} secrets of a {} are still in memory after it was {}", alive, r.was.len() / w, name, words[how]);
        }
        drop(rest);
        // the others are untouched
        for (k, s) in &held {
            ensure!(k.scalars() == *s, "erase:others", "dropping one key changed another {}", k.name());
        }
        ensure!(!d.sk.0.is_zero() && p.gens.G.mul_bigint([1u64]) == p.gens.G.into_group(), "erase:others", "dropping a copy erased the original");
        for (q, part) in j.sks.iter().zip(&j.parts) {
            ensure!(mul(&p.delta, &q.s[0]) == part.X[0], "erase:others", "dropping a copy changed the original of a share holder");
        }
    }
    sim::restore(outer);
    Ok(())
}
