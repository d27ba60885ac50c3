//! C16: nodes that bootstrap from a public label agree on its generators whatever their history,
//! restarts, transport and pool schedule, and different labels share nothing. C15: committer,
//! verifier and destination nodes agree that a chunked commitment is the plain commitment.
use crate::codec::*;
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use crate::sys::*;
use ark_ec::{pairing::Pairing, AffineRepr, CurveGroup, Group};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_std::rand::RngCore;
use blake2::{digest::Digest, Blake2b512, Blake2s256};
use dist_saver::commitment::ChunkedCommitment;
use dist_saver::encryption::Encryption;
use dist_saver::setup::{ChunkedCommitmentGens, EncryptionGens, PreparedEncryptionGens};
use dist_saver::utils;
use rayon_core::sim;

/// another pool schedule and worker count for the next calls
fn reschedule(cx: &mut Cx) {
    let pol = [sim::Policy::Random, sim::Policy::Reversed, sim::Policy::Sequential][cx.ch.weighted(&[4, 2, 1])];
    let threads = [2usize, 1, 3, 8, 64][cx.choose(5)];
    let s = h64(&[cx.seed, 0xD1, cx.st.ops.values().sum::<u64>()]);
    sim::install(pol, s, threads);
    let foreign = if cx.chance(1, 3) { 1 + cx.choose(4) as u64 } else { 0 };
    sim::allow_foreign(foreign);
}

/// call on this thread or on one that has never called the library
fn somewhere<T: Send>(cx: &mut Cx, op: &'static str, f: impl FnOnce() -> T + Send) -> R<T> {
    if cx.chance(1, 4) {
        cx.fault("call_on_new_thread");
        cx.lib(op, || std::thread::scope(|s| s.spawn(f).join()).expect("call on another thread panicked"))
    } else {
        cx.lib(op, f)
    }
}

/// everything derived from one label with one hash
#[derive(Clone, Debug, PartialEq)]
struct Gens<E: Curve> {
    enc: EncryptionGens<E>,
    com1: ChunkedCommitmentGens<G1<E>>,
    com2: ChunkedCommitmentGens<G2<E>>,
    elem: G1<E>,
    scalar: F<E>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Enc,
    Com1,
    Com2,
    Elem,
    Scalar,
}
const KINDS: [Kind; 5] = [Kind::Enc, Kind::Com1, Kind::Com2, Kind::Elem, Kind::Scalar];
#[derive(Clone, Debug, PartialEq)]
enum Got<E: Curve> {
    Enc(EncryptionGens<E>),
    Com1(ChunkedCommitmentGens<G1<E>>),
    Com2(ChunkedCommitmentGens<G2<E>>),
    Elem(G1<E>),
    Scalar(F<E>),
}

fn derive_now<E: Curve>(kind: Kind, label: &[u8], short: bool) -> Got<E> {
    fn go<E: Curve, D: Digest>(kind: Kind, l: &[u8]) -> Got<E> {
        match kind {
            Kind::Enc => Got::Enc(EncryptionGens::<E>::new::<D>(l)),
            Kind::Com1 => Got::Com1(ChunkedCommitmentGens::<G1<E>>::new::<D>(l)),
            Kind::Com2 => Got::Com2(ChunkedCommitmentGens::<G2<E>>::new::<D>(l)),
            Kind::Elem => Got::Elem(utils::affine_group_elem_from_try_and_incr::<G1<E>, D>(l)),
            Kind::Scalar => Got::Scalar(utils::field_elem_from_try_and_incr::<F<E>, D>(l)),
        }
    }
    if short {
        go::<E, Blake2s256>(kind, label)
    } else {
        go::<E, Blake2b512>(kind, label)
    }
}

/// the derivation every deployed node uses: the first of `D(m)`, `D(m-attempt-1)`, .. that encodes an
/// element, moved into the prime-order group
fn released<E: Curve>(kind: Kind, label: &[u8], short: bool) -> Got<E> {
    fn tries<D: Digest, T>(m: &[u8], f: impl Fn(&[u8]) -> Option<T>) -> T {
        let mut j = 0u64;
        loop {
            let mut b = m.to_vec();
            if j > 0 {
                b.extend_from_slice(b"-attempt-");
                b.extend_from_slice(&j.to_le_bytes());
            }
            if let Some(x) = f(&D::digest(&b)) {
                return x;
            }
            j += 1;
        }
    }
    fn point<D: Digest, A: AffineRepr>(m: &[u8], suffix: &[u8]) -> A {
        let p = tries::<D, A>(&[m, suffix].concat(), |h| A::from_random_bytes(h));
        p.mul_by_cofactor_to_group().into_affine()
    }
    fn go<E: Curve, D: Digest>(kind: Kind, l: &[u8]) -> Got<E> {
        match kind {
            Kind::Enc => Got::Enc(EncryptionGens { G: point::<D, G1<E>>(l, b" : G"), H: point::<D, G2<E>>(l, b" : H") }),
            Kind::Com1 => Got::Com1(ChunkedCommitmentGens { G: point::<D, G1<E>>(l, b" : G"), H: point::<D, G1<E>>(l, b" : H") }),
            Kind::Com2 => Got::Com2(ChunkedCommitmentGens { G: point::<D, G2<E>>(l, b" : G"), H: point::<D, G2<E>>(l, b" : H") }),
            Kind::Elem => Got::Elem(point::<D, G1<E>>(l, b"")),
            Kind::Scalar => Got::Scalar(tries::<D, F<E>>(l, |h| F::<E>::from_random_bytes(h))),
        }
    }
    if short {
        go::<E, Blake2s256>(kind, label)
    } else {
        go::<E, Blake2b512>(kind, label)
    }
}

fn derive<E: Curve>(cx: &mut Cx, kind: Kind, label: &[u8], short: bool) -> R<Got<E>> {
    let op = match kind {
        Kind::Enc => "EncryptionGens::new",
        Kind::Com1 => "ChunkedCommitmentGens::new",
        Kind::Com2 => "ChunkedCommitmentGens::new(G2)",
        Kind::Elem => "affine_group_elem_from_try_and_incr",
        Kind::Scalar => "field_elem_from_try_and_incr",
    };
    let l = label.to_vec();
    let g = somewhere(cx, op, move || derive_now::<E>(kind, &l, short))?;
    Ok(g)
}

/// labels that a careless derivation would confuse
fn labels(cx: &mut Cx) -> Vec<Vec<u8>> {
    let mut rng = cx.rng();
    let len = [0usize, 1, 3, 8, 16, 31, 32, 33, 60, 64, 65, 100, 128, 129, 200, 256, 300][cx.choose(17)];
    // long labels: a whole document as the label
    let len = if cx.chance(1, 6) { [511usize, 512, 513, 1000, 1023, 1024, 1025, 2047, 2049, 4096, 5000, 8193][cx.choose(12)] } else { len };
    let mut base = vec![0u8; len];
    rng.fill_bytes(&mut base);
    if cx.chance(1, 3) {
        for b in base.iter_mut() {
            *b = b'a' + *b % 26;
        }
    }
    let mut v = vec![base.clone()];
    let want = 2 + cx.choose(7);
    for _ in 0..4 * want {
        if v.len() > want {
            break;
        }
        let from = cx.choose(v.len());
        let mut l = v[from].clone();
        match cx.choose(16) {
            0 => l.push(0),
            1 => l.insert(0, 0),
            2 => {
                l.pop();
            }
            3 if !l.is_empty() => {
                l.remove(0);
            }
            4 if !l.is_empty() => {
                let n = l.len();
                l[n - 1] ^= 1 << cx.choose(8);
            }
            5 if !l.is_empty() => l[0] ^= 1 << cx.choose(8),
            6 if !l.is_empty() => {
                let i = cx.choose(l.len());
                l[i] ^= 1 << cx.choose(8);
            }
            7 => l.extend_from_slice(b" : G"),
            8 => l.extend_from_slice(b" : H"),
            9 => {
                l.extend_from_slice(b"-attempt-");
                l.extend_from_slice(&1u64.to_le_bytes());
            }
            10 => l.reverse(),
            11 => {
                let c = l.clone();
                l.extend(c);
            }
            12 => {
                let n = l.len() / 2;
                l.truncate(n);
            }
            13 => l = String::from_utf8_lossy(&l).to_uppercase().into_bytes(),
            14 => l = l.iter().map(|b| b.to_ascii_lowercase()).filter(|b| !b.is_ascii_whitespace()).collect(),
            _ => {
                // same length, another tail
                let n = l.len();
                rng.fill_bytes(&mut l[n / 2..]);
            }
        }
        if !v.contains(&l) {
            v.push(l);
        }
    }
    v
}

fn member<A: AffineRepr>(what: &str, a: &A) -> R {
    ensure!(!a.is_zero(), "gens:identity", "{} is the identity", what);
    // decoding checks the curve equation and the subgroup
    let mut b = vec![];
    a.serialize_uncompressed(&mut b).unwrap();
    ensure!(A::deserialize_uncompressed(&b[..]).is_ok(), "gens:not_in_group", "{} is not a member of the prime-order group", what);
    ensure!(a.mul_bigint(<A::ScalarField as PrimeField>::MODULUS).is_zero(), "gens:not_in_group", "{} has the wrong order", what);
    Ok(())
}

/// a relation anyone could find between two elements that should be unrelated
fn related<A: AffineRepr>(a: &A, b: &A) -> Option<String> {
    let (pa, pb) = (a.into_group(), b.into_group());
    let (mut x, mut y) = (pa, pb);
    for k in 1..=16u32 {
        if x == pb || -x == pb {
            return Some(format!("±{} times the other", k));
        }
        if y == pa || -y == pa {
            return Some(format!("1/±{} of the other", k));
        }
        x += pa;
        y += pb;
    }
    // same element shifted by a few standard generators
    let g = A::generator().into_group();
    let d = pa - pb;
    let mut s = g;
    for k in 1..=64u32 {
        if s == d || -s == d {
            return Some(format!("the other shifted by {} standard generators", k));
        }
        s += g;
    }
    None
}

/// the second element of a label is a publicly computable multiple of the first
fn guessable<A: AffineRepr>(a: &A, b: &A, label: &[u8]) -> Option<String> {
    for suffix in [&b""[..], b" : G", b" : H"] {
        let mut m = label.to_vec();
        m.extend_from_slice(suffix);
        let mut es = vec![
            utils::field_elem_from_try_and_incr::<A::ScalarField, Blake2b512>(&m),
            utils::field_elem_from_try_and_incr::<A::ScalarField, Blake2s256>(&m),
        ];
        for h in [Blake2b512::digest(&m).to_vec(), Blake2s256::digest(&m).to_vec()] {
            es.push(A::ScalarField::from_le_bytes_mod_order(&h));
            es.push(A::ScalarField::from_be_bytes_mod_order(&h));
        }
        for e in es {
            if !e.is_zero() && (a.into_group() * e == b.into_group() || b.into_group() * e == a.into_group()) {
                return Some("the other times a hash of the label".into());
            }
        }
    }
    None
}

/// discrete logarithms an outsider can guess: small, or a hash of the label
fn trapdoor<A: AffineRepr>(a: &A, label: &[u8], short: bool) -> Option<String> {
    let g = A::generator().into_group();
    let t = a.into_group();
    let mut s = g;
    for k in 1..=64u32 {
        if s == t || -s == t {
            return Some(format!("{} standard generators", k));
        }
        s += g;
    }
    for suffix in [&b""[..], b" : G", b" : H"] {
        let mut m = label.to_vec();
        m.extend_from_slice(suffix);
        let h = if short { Blake2s256::digest(&m).to_vec() } else { Blake2b512::digest(&m).to_vec() };
        for e in [A::ScalarField::from_le_bytes_mod_order(&h), A::ScalarField::from_be_bytes_mod_order(&h), A::ScalarField::from_random_bytes(&h).unwrap_or(A::ScalarField::zero())] {
            if !e.is_zero() && g * e == t {
                return Some("the standard generator times a hash of the label".into());
            }
        }
    }
    None
}

pub fn run_labels<E: Curve>(cx: &mut Cx) -> R {
    let outer = sim::save();
    sim::install(sim::Policy::Sequential, 0, 1);
    let ls = labels(cx);
    let nodes = 2 + cx.choose(4);
    // both supported digests may be in use side by side
    let mixed = cx.chance(1, 3);
    let short0 = cx.chance(1, 4) && !E::REAL;
    // what each node holds; a restart empties it
    let mut held: Vec<Vec<(usize, Kind, bool, Got<E>)>> = vec![vec![]; nodes];
    // first answer anybody gave
    let mut first: Vec<(usize, Kind, bool, Got<E>)> = vec![];
    let steps = if E::REAL { 8 + cx.choose(6) } else { 12 + cx.choose(40) };
    for _ in 0..steps {
        reschedule(cx);
        let n = cx.choose(nodes);
        let li = cx.choose(ls.len());
        let kind = KINDS[cx.ch.weighted(&[4, 3, if E::REAL { 1 } else { 2 }, 1, 1])];
        let short = if mixed { cx.chance(1, 2) && !E::REAL } else { short0 };
        match cx.ch.weighted(&[8, 2, 1, 2]) {
            0 | 3 => {
                let got = derive::<E>(cx, kind, &ls[li], short)?;
                cx.log(|| format!("node {} derives {:?} of label {} {:x}", n, kind, li, hstr(&format!("{:?}", got))));
                cx.check();
                match first.iter().find(|x| x.0 == li && x.1 == kind && x.2 == short) {
                    Some(x) => ensure!(x.3 == got, "gens:not_reproducible", "node {} derives other generators than before from the same label ({:?}, {} bytes)", n, kind, ls[li].len()),
                    None => first.push((li, kind, short, got.clone())),
                }
                held[n].retain(|x| !(x.0 == li && x.1 == kind && x.2 == short));
                held[n].push((li, kind, short, got));
            }
            1 => {
                // a peer sends what it holds; the node compares with its own derivation
                if held[n].is_empty() {
                    continue;
                }
                let (l2, k2, short, g2) = held[n][cx.choose(held[n].len())].clone();
                let md = mode(cx);
                cx.fault("generators_received");
                match &g2 {
                    Got::Enc(g) => {
                        let r = ship(cx, md, g)?;
                        ensure!(derive::<E>(cx, k2, &ls[l2], short)? == Got::Enc(r), "gens:not_reproducible", "received generators differ from the derived ones");
                    }
                    Got::Com1(g) => {
                        let r = ship(cx, md, g)?;
                        ensure!(derive::<E>(cx, k2, &ls[l2], short)? == Got::Com1(r), "gens:not_reproducible", "received generators differ from the derived ones");
                    }
                    Got::Com2(g) => {
                        let r = ship(cx, md, g)?;
                        ensure!(derive::<E>(cx, k2, &ls[l2], short)? == Got::Com2(r), "gens:not_reproducible", "received generators differ from the derived ones");
                    }
                    _ => {}
                }
            }
            _ => {
                held[n].clear();
                cx.fault("node_restarted");
            }
        }
    }
    // what a node running the released version holds for the same labels
    for (li, kind, short, got) in &first {
        if E::REAL && !matches!(kind, Kind::Elem | Kind::Scalar) && cx.chance(1, 2) {
            continue;
        }
        cx.check();
        ensure!(*got == released::<E>(*kind, &ls[*li], *short), "gens:other_release", "a node of another release holds other generators for the same label ({:?}, {} bytes)", kind, ls[*li].len());
    }
    // nodes that have derived nothing before agree, in whatever order they go through the labels
    for i in cx.ch.perm(first.len()).into_iter().take(if E::REAL { 4 } else { 12 }) {
        reschedule(cx);
        let (li, kind, short, got) = first[i].clone();
        let l = ls[li].clone();
        let again = cx.lib("derivation on a fresh node", || std::thread::scope(|s| s.spawn(move || derive_now::<E>(kind, &l, short)).join()).expect("derivation panicked"))?;
        cx.fault("fresh_node_derives");
        cx.check();
        ensure!(again == got, "gens:not_reproducible", "a node that derived nothing before gets other generators from the same label ({:?}, {} bytes)", kind, ls[li].len());
    }
    // membership and separation over everything seen in this history
    let (mut g1s, mut g2s): (Vec<(usize, char, G1<E>, bool)>, Vec<(usize, char, G2<E>, bool)>) = (vec![], vec![]);
    let mut scalars: Vec<(usize, F<E>, bool)> = vec![];
    let mut pairs: Vec<(usize, G1<E>, G2<E>)> = vec![];
    let mut coms: Vec<(usize, G1<E>, G1<E>)> = vec![];
    for (li, kind, short, g) in &first {
        let short = *short;
        cx.check();
        match g {
            Got::Enc(g) => {
                member("EncryptionGens.G", &g.G)?;
                member("EncryptionGens.H", &g.H)?;
                g1s.push((*li, 'G', g.G, short));
                g2s.push((*li, 'H', g.H, short));
                pairs.push((*li, g.G, g.H));
                let pg = cx.lib("PreparedEncryptionGens::from", || PreparedEncryptionGens::from(g.clone()))?;
                let e = E::multi_pairing([pg.G], [pg.H]);
                ensure!(e == E::pairing(g.G, g.H), "gens:prepared", "prepared generators are not the generators");
            }
            Got::Com1(g) => {
                member("ChunkedCommitmentGens.G", &g.G)?;
                member("ChunkedCommitmentGens.H", &g.H)?;
                ensure!(related(&g.G, &g.H).is_none(), "gens:related", "G and H of one label are related: {}", related(&g.G, &g.H).unwrap_or_default());
                if let Some(w) = guessable(&g.G, &g.H, &ls[*li]) {
                    return viol("gens:related", format!("G and H of one label are related: {}", w));
                }
                g1s.push((*li, 'g', g.G, short));
                g1s.push((*li, 'h', g.H, short));
                coms.push((*li, g.G, g.H));
            }
            Got::Com2(g) => {
                member("ChunkedCommitmentGens.G", &g.G)?;
                member("ChunkedCommitmentGens.H", &g.H)?;
                ensure!(related(&g.G, &g.H).is_none(), "gens:related", "G and H of one label are related: {}", related(&g.G, &g.H).unwrap_or_default());
                if let Some(w) = guessable(&g.G, &g.H, &ls[*li]) {
                    return viol("gens:related", format!("G and H of one label are related: {}", w));
                }
                g2s.push((*li, 'g', g.G, short));
                g2s.push((*li, 'h', g.H, short));
            }
            Got::Elem(g) => {
                member("derived element", g)?;
                g1s.push((*li, 'e', *g, short));
            }
            Got::Scalar(s) => {
                // reduced by construction; it must not be constant
                scalars.push((*li, *s, short));
            }
        }
        let _ = kind;
    }
    for i in 0..scalars.len() {
        for j in 0..i {
            cx.check();
            ensure!(scalars[i].1 != scalars[j].1, "gens:labels_collide", "two labels of {} and {} bytes give the same field element", ls[scalars[i].0].len(), ls[scalars[j].0].len());
        }
    }
    for i in 0..g1s.len() {
        if let Some(w) = trapdoor(&g1s[i].2, &ls[g1s[i].0], g1s[i].3) {
            return viol("gens:known_logarithm", format!("a generator of a label is {}", w));
        }
        for j in 0..i {
            if g1s[i].0 != g1s[j].0 {
                cx.check();
                // label + suffix of one may be the label of a bare element
                if g1s[i].1 == 'e' || g1s[j].1 == 'e' {
                    continue;
                }
                if let Some(w) = related(&g1s[i].2, &g1s[j].2) {
                    return viol("gens:labels_collide", format!("generators {}/{} of different labels ({} and {} bytes) are related: {}", g1s[i].1, g1s[j].1, ls[g1s[i].0].len(), ls[g1s[j].0].len(), w));
                }
            }
        }
    }
    for i in 0..g2s.len() {
        if let Some(w) = trapdoor(&g2s[i].2, &ls[g2s[i].0], g2s[i].3) {
            return viol("gens:known_logarithm", format!("a generator of a label is {}", w));
        }
        for j in 0..i {
            if g2s[i].0 != g2s[j].0 {
                cx.check();
                if let Some(w) = related(&g2s[i].2, &g2s[j].2) {
                    return viol("gens:labels_collide", format!("generators {}/{} of different labels ({} and {} bytes) are related: {}", g2s[i].1, g2s[j].1, ls[g2s[i].0].len(), ls[g2s[j].0].len(), w));
                }
            }
        }
    }
    // one unknown factor for both generators of a label: G_a/G_b = H_a/H_b
    for i in 0..pairs.len().min(6) {
        for j in 0..i {
            cx.check();
            ensure!(E::pairing(pairs[i].1, pairs[j].2) != E::pairing(pairs[j].1, pairs[i].2), "gens:same_ratio", "the generators of two labels are the same multiple of common bases");
        }
    }
    for i in 0..coms.len() {
        for j in 0..i {
            cx.check();
            let d = sub(&coms[i].1, &coms[j].1);
            let e = sub(&coms[i].2, &coms[j].2);
            ensure!(d != e && d != neg(&e), "gens:same_difference", "the generators of two labels differ by the same element");
        }
    }
    cx.sample.insert("curve".into(), E::NAME.into());
    cx.sample.insert("labels".into(), format!("{:?}", ls.iter().map(|l| l.len()).collect::<Vec<_>>()));
    cx.sample.insert("nodes".into(), nodes.to_string());
    cx.nontrivial = true;
    sim::restore(outer);
    Ok(())
}

// --------------------------------------------------------------------------------------------

struct Com<E: Curve> {
    gens: usize,
    bits: u8,
    m: F<E>,
    r: F<E>,
    c: G1<E>,
}

fn plain<E: Curve>(g: &ChunkedCommitmentGens<G1<E>>, m: &F<E>, r: &F<E>) -> G1<E> {
    add(&mul(&g.G, m), &mul(&g.H, r))
}

pub fn run_commit<E: Curve>(cx: &mut Cx) -> R {
    let outer = sim::save();
    sim::install(sim::Policy::Sequential, 0, 1);
    type CC<E> = ChunkedCommitment<G1<E>>;
    let ng = 1 + cx.choose(3);
    let mut gens: Vec<ChunkedCommitmentGens<G1<E>>> = vec![];
    for i in 0..ng {
        let g = if cx.chance(1, 2) {
            let label = [i as u8, cx.choose(256) as u8];
            cx.lib("ChunkedCommitmentGens::new", || ChunkedCommitmentGens::<G1<E>>::new::<Blake2b512>(&label))?
        } else {
            let mut rng = cx.rng();
            cx.lib("ChunkedCommitmentGens::new_using_rng", || ChunkedCommitmentGens::<G1<E>>::new_using_rng(&mut rng))?
        };
        // generators that share one component with others in use
        let mut g = g;
        if i > 0 && cx.chance(1, 3) {
            if cx.chance(1, 2) {
                g.G = gens[i - 1].G;
            } else {
                g.H = gens[i - 1].H;
            }
            cx.fault("generators_share_a_component");
        }
        gens.push(g);
    }
    let mut all: Vec<Com<E>> = vec![];
    let steps = if E::REAL { 4 + cx.choose(4) } else { 6 + cx.choose(14) };
    for _ in 0..steps {
        reschedule(cx);
        let gi = cx.choose(ng);
        let g = gens[gi].clone();
        match cx.ch.weighted(&[8, 4, 3, 3, 2, 1]) {
            0 => {
                // a committer, then a verifier that knows only the label
                let bits = [4u8, 8, 16][cx.choose(3)];
                let m = if !all.is_empty() && cx.chance(1, 4) { all[cx.choose(all.len())].m } else { gen_field::<E>(cx, bits)?.0 };
                let r = match cx.ch.weighted(&[6, 1, 1, 1, 1]) {
                    0 => F::<E>::rand(&mut cx.rng()),
                    1 => F::<E>::zero(),
                    2 => F::<E>::one(),
                    3 => -F::<E>::one(),
                    _ => if all.is_empty() { F::<E>::one() } else { all[cx.choose(all.len())].r },
                };
                let g2 = g.clone();
                let c = match somewhere(cx, "ChunkedCommitment::new", move || CC::<E>::new(&m, &r, bits, &g2))? {
                    Ok(c) => c,
                    Err(e) => return viol("commit:refused", format!("commitment with {} bit chunks refused: {:?}", bits, e)),
                };
                let want = plain::<E>(&g, &m, &r);
                cx.check();
                ensure!(c.0 == want, "commit:not_plain", "commitment from chunks of {} bits is not the commitment to the message", bits);
                check_key::<E>(cx, &g, bits, &c.1)?;
                let md = mode(cx);
                let c2 = ship(cx, md, &c)?;
                cx.fault(&format!("transport_{:?}", md).to_lowercase());
                let g3 = ship(cx, md, &g)?;
                reschedule(cx);
                let key = cx.lib("commitment_key", || CC::<E>::commitment_key(&g3, bits))?;
                ensure!(key == c2.1, "commit:keys_differ", "verifier derives another commitment key for {} bits than the committer", bits);
                let v = cx.ok("get_commitment_given_commitment_key", || CC::<E>::get_commitment_given_commitment_key(&m, &r, bits, &key))?;
                cx.check();
                ensure!(v == c2.0, "commit:opening_refused", "opening under the derived key of {} bits gives another commitment", bits);
                cx.log(|| format!("commit {} {:x}", bits, hstr(&format!("{:?}", c))));
                all.push(Com { gens: gi, bits, m, r, c: c.0 });
            }
            1 => {
                // other sizes: the chunks are the committer's own
                let bits = [1u8, 2, 3, 5, 6, 7, 9, 12, 15, 16, 20, 24, 30, 31, 32, 33, 40, 48, 60, 61, 62, 63, 8, 4][cx.choose(24)];
                if count_wide::<E>(bits) > 255 {
                    continue;
                }
                let g2 = g.clone();
                let key = somewhere(cx, "commitment_key", move || CC::<E>::commitment_key(&g2, bits))?;
                cx.check();
                check_key::<E>(cx, &g, bits, &key)?;
            }
            2 => {
                // an opening for another message, blinding or generators must not pass
                if all.is_empty() {
                    continue;
                }
                let o = &all[cx.choose(all.len())];
                let (mut m, mut r, mut gi2) = (o.m, o.r, o.gens);
                let mut bits = o.bits;
                let what = match cx.choose(7) {
                    0 => { m += F::<E>::one(); "another message" }
                    1 => { r += F::<E>::one(); "another blinding" }
                    2 => { std::mem::swap(&mut m, &mut r); "message and blinding exchanged" }
                    3 => { gi2 = (o.gens + 1) % ng; "other generators" }
                    4 => { bits = [4u8, 8, 16][cx.choose(3)]; "another chunk size" }
                    // a change above the lowest chunk, and one that only moves the top
                    5 => { m += F::<E>::from(2u64).pow([bits as u64 * (1 + cx.choose(3) as u64)]); "a higher chunk changed" }
                    _ => { m = -m; "message negated" }
                };
                let same = m == o.m && r == o.r && gens[gi2] == gens[o.gens];
                let key = cx.lib("commitment_key", || CC::<E>::commitment_key(&gens[gi2], bits))?;
                let v = cx.ok("get_commitment_given_commitment_key", || CC::<E>::get_commitment_given_commitment_key(&m, &r, bits, &key))?;
                cx.fault(&format!("opening: {}", what));
                cx.check();
                ensure!((v == o.c) == (same || plain::<E>(&gens[gi2], &m, &r) == o.c), "commit:binding", "opening with {} {} the commitment", what, if v == o.c { "matches" } else { "does not match" });
            }
            3 => {
                // a stale or foreign key: refused, or processed completely
                let bits = [4u8, 8, 16][cx.choose(3)];
                let kb = [4u8, 8, 16, 6, 12, 32][cx.choose(6)];
                let mut key = cx.lib("commitment_key", || CC::<E>::commitment_key(&g, kb))?;
                if cx.chance(1, 3) {
                    let (a, b) = (cx.choose(key.len()), cx.choose(key.len()));
                    key.swap(a, b);
                }
                if cx.chance(1, 3) {
                    key.pop();
                }
                let (m, _) = gen_field::<E>(cx, bits)?;
                let r = F::<E>::rand(&mut cx.rng());
                let res = cx.lib("get_commitment_given_commitment_key", || CC::<E>::get_commitment_given_commitment_key(&m, &r, bits, &key))?;
                cx.fault("foreign_commitment_key");
                cx.check();
                match res {
                    Err(_) => ensure!(key.len() != count::<E>(bits) + 1, "commit:refused", "key of the right length refused"),
                    Ok(v) => {
                        ensure!(key.len() == count::<E>(bits) + 1, "commit:misfit_accepted", "key of {} elements accepted for {} bits", key.len(), bits);
                        let ch = chunks_of::<E>(&m, bits);
                        let mut w = mul(&key[ch.len()], &r);
                        for (x, k) in ch.iter().zip(&key) {
                            w = add(&w, &mulu(k, *x));
                        }
                        ensure!(v == w, "commit:wrong_sum", "commitment is not the sum over the chunks with the key given");
                    }
                }
            }
            4 => {
                // an aggregator adds commitments; the sum opens to the sum
                let k = 2 + cx.choose(4);
                let mine: Vec<usize> = (0..all.len()).filter(|i| all[*i].gens == gi).collect();
                if mine.len() < 2 {
                    continue;
                }
                let (mut m, mut r, mut c) = (F::<E>::zero(), F::<E>::zero(), G1::<E>::zero());
                for _ in 0..k {
                    let o = &all[mine[cx.choose(mine.len())]];
                    m += o.m;
                    r += o.r;
                    c = add(&c, &o.c);
                }
                let bits = [4u8, 8, 16][cx.choose(3)];
                let v = cx.ok("ChunkedCommitment::new", || CC::<E>::new(&m, &r, bits, &g))?;
                cx.fault("commitments_added");
                cx.check();
                ensure!(v.0 == c, "commit:not_additive", "sum of commitments does not open to the sum ({} bits)", bits);
            }
            _ => {
                // the destination decrypts and re-commits to what it read
                if E::REAL {
                    continue;
                }
                let bits = [4u8, 8][cx.choose(2)];
                let p = params::<E>(cx, bits, false, 0, false)?;
                let d = dealer::<E>(cx, &p)?;
                let (m, ch) = gen_field::<E>(cx, bits)?;
                let r = F::<E>::rand(&mut cx.rng());
                let j = cx.ok("ChunkedCommitment::new", || CC::<E>::new(&m, &r, bits, &g))?;
                let ct = encrypt::<E>(cx, &p, &d.ek, &ch)?;
                let (read, _) = cx.ok("Encryption::decrypt", || Encryption::<E>::decrypt(&ct.ct.X_r, &ct.ct.enc_chunks, &d.sk, d.dk.clone(), &p.g, bits))?;
                let again = cx.ok("ChunkedCommitment::new", || CC::<E>::new(&read, &r, bits, &g))?;
                cx.fault("recommitted_after_decryption");
                cx.check();
                ensure!(again.0 == j.0, "commit:recommit", "what was decrypted does not open the commitment made by the encryptor");
            }
        }
    }
    // different messages under one blinding, one message under different blindings
    for i in 0..all.len() {
        for j in 0..i {
            if all[i].gens == all[j].gens {
                cx.check();
                let same = all[i].m == all[j].m && all[i].r == all[j].r;
                ensure!((all[i].c == all[j].c) == same, "commit:binding", "commitments of {} openings {}", if same { "equal" } else { "different" }, if same { "differ" } else { "coincide" });
            }
        }
    }
    cx.sample.insert("curve".into(), E::NAME.into());
    cx.sample.insert("commitments".into(), all.len().to_string());
    cx.nontrivial = true;
    sim::restore(outer);
    Ok(())
}

fn count_wide<E: Curve>(bits: u8) -> usize {
    count::<E>(bits)
}
/// most significant chunk first
fn chunks_of<E: Curve>(m: &F<E>, bits: u8) -> Vec<u64> {
    use ark_ff::{BigInteger, BitIteratorLE};
    let b = m.into_bigint();
    let _ = b.num_bits();
    let bitv: Vec<bool> = BitIteratorLE::new(b).collect();
    let n = count::<E>(bits);
    let mut v: Vec<u64> = (0..n)
        .map(|i| (0..bits as usize).map(|k| bitv.get(i * bits as usize + k).map_or(0, |x| (*x as u64) << k)).sum())
        .collect();
    v.reverse();
    v
}

/// the key commits to the chunks of any message exactly as the plain commitment does
fn check_key<E: Curve>(cx: &mut Cx, g: &ChunkedCommitmentGens<G1<E>>, bits: u8, key: &[G1<E>]) -> R {
    let n = count::<E>(bits);
    cx.check();
    ensure!(key.len() == n + 1, "commit:key_shape", "commitment key for {} bits has {} elements, {} expected", bits, key.len(), n + 1);
    ensure!(key[n] == g.H, "commit:key_wrong", "last element of the key for {} bits is not H", bits);
    let mut want = g.G.into_group();
    for i in (0..n).rev() {
        ensure!(key[i].into_group() == want, "commit:key_wrong", "element {} of the commitment key for {} bits is wrong", i, bits);
        for _ in 0..bits {
            want.double_in_place();
        }
    }
    let _ = want.into_affine();
    Ok(())
}
