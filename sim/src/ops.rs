// Included once per build of the library (`lib` names the build): every public operation as a
// function from bytes to bytes, so that two builds can be handed exactly the same call.
use super::lib_types::*;
use crate::codec::{dec_raw, enc_raw, Mode};
use crate::core::SimRng;
use crate::sys::{Curve, F, G1};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use blake2::Blake2b512;
use lib::circuit::BitsizeCheckCircuit;
use lib::commitment::ChunkedCommitment;
use lib::encryption::{Ciphertext, Encryption};
use lib::keygen::*;
use lib::saver_groth16::{self, PreparedVerifyingKey, Proof, ProvingKey, VerifyingKey};
use lib::setup::*;
use lib::utils;

type Bytes = Vec<u8>;

pub fn run<E: Curve>(op: &str, a: &Call) -> Result<Vec<Bytes>, String> {
    let mode = a.mode;
    macro_rules! take {
        ($t:ty, $i:expr) => {{
            let v: $t = dec_raw::<$t>(mode, &a.b[$i]).map_err(|e| format!("decode: {}", e))?;
            v
        }};
    }
    macro_rules! plain {
        ($t:ty, $i:expr) => {{
            let v: $t = <$t>::deserialize_uncompressed_unchecked(&a.b[$i][..]).map_err(|e| format!("decode: {:?}", e))?;
            v
        }};
    }
    macro_rules! put {
        ($v:expr) => {
            enc_raw(mode, &$v).map_err(|e| format!("encode: {}", e))?
        };
    }
    macro_rules! raw {
        ($v:expr) => {{
            let mut o = vec![];
            $v.serialize_uncompressed(&mut o).map_err(|e| format!("encode: {:?}", e))?;
            o
        }};
    }
    let es = |e: lib::error::SaverError| format!("{:?}", e);
    let mut rng = SimRng::new(a.seed);
    let bits = a.bits;
    Ok(match op {
        "gens" => vec![put!(EncryptionGens::<E>::new::<Blake2b512>(&a.b[0])), put!(ChunkedCommitmentGens::<G1<E>>::new::<Blake2b512>(&a.b[0]))],
        "gens_rng" => vec![put!(EncryptionGens::<E>::new_using_rng(&mut rng)), put!(ChunkedCommitmentGens::<G1<E>>::new_using_rng(&mut rng))],
        "setup" => {
            let gens = take!(EncryptionGens<E>, 0);
            let (pk, sk, ek, dk) = setup_for_groth16::<E, _>(&mut rng, bits, &gens).map_err(es)?;
            vec![put!(pk), put!(sk), put!(ek), put!(dk)]
        }
        "srs" => {
            let gens = take!(EncryptionGens<E>, 0);
            let circ = BitsizeCheckCircuit::<F<E>>::new(bits, None, None, true);
            let pk = saver_groth16::generate_srs::<E, _, _>(circ, &gens, &mut rng).map_err(es)?;
            let g = saver_groth16::get_gs_for_encryption(&pk.pk.vk).to_vec();
            vec![put!(pk), raw!(g)]
        }
        // [gens, g, delta, gamma]
        "partial" => {
            let (gens, g, d, c) = (take!(EncryptionGens<E>, 0), plain!(Vec<G1<E>>, 1), plain!(G1<E>, 2), plain!(G1<E>, 3));
            let (sk, part) = FkeygenPartial(&mut rng, bits, &gens, &g, &d, &c).map_err(es)?;
            vec![put!(sk), put!(part)]
        }
        "authority" => {
            let (gens, g, d, c) = (take!(EncryptionGens<E>, 0), plain!(Vec<G1<E>>, 1), plain!(G1<E>, 2), plain!(G1<E>, 3));
            let (sk, ek, dk) = keygen(&mut rng, bits, &gens, &g, &d, &c).map_err(es)?;
            vec![put!(sk), put!(ek), put!(dk)]
        }
        "destination" => {
            let gens = take!(EncryptionGens<E>, 0);
            let (sk, pk) = Fkeygen_dest::<_, E>(&mut rng, &gens).map_err(es)?;
            vec![put!(sk), put!(pk)]
        }
        // [gamma, part...]
        "combine" => {
            let gamma = plain!(G1<E>, 0);
            let mut v = vec![];
            for i in 1..a.b.len() {
                v.push(take!(FEncryptionKeyPartial<E>, i));
            }
            vec![put!(combineEKs(&gamma, &v))]
        }
        "p1" => vec![put!(genP1share(&take!(FEncryptionKeyPartial<E>, 0), &take!(SecretKeyST<E>, 1)))],
        "p1sum" => {
            let mut v = vec![];
            for i in 0..a.b.len() {
                v.push(take!(P1share<E>, i));
            }
            vec![put!(combineP1share(&v))]
        }
        "final" => vec![put!(keygenFinal(&take!(FEncryptionKeyPartial<E>, 0), &take!(P1share<E>, 1)))],
        "ek_info" => {
            let ek = take!(EncryptionKey<E>, 0);
            ek.validate().map_err(es)?;
            let pek = PreparedEncryptionKey::from(ek.clone());
            pek.validate().map_err(es)?;
            vec![vec![ek.supported_chunks_count().map_err(es)?, pek.supported_chunks_count().map_err(es)?], raw!(ek.commitment_key()), raw!(pek.commitment_key())]
        }
        "dk_info" => {
            let dk = take!(DecryptionKey<E>, 0);
            dk.validate().map_err(es)?;
            let pdk = PreparedDecryptionKey::from(dk.clone());
            pdk.validate().map_err(es)?;
            vec![vec![dk.supported_chunks_count().map_err(es)?, pdk.supported_chunks_count().map_err(es)?]]
        }
        // [dk, g]
        "powers" => {
            let (dk, g) = (take!(DecryptionKey<E>, 0), plain!(Vec<G1<E>>, 1));
            vec![raw!(dk.pairing_powers(bits, &g).map_err(es)?), raw!(PreparedDecryptionKey::from(dk).pairing_powers(bits, &g).map_err(es)?)]
        }
        // [ek, g], chunks
        "encrypt_chunks" => {
            let (ek, g) = (take!(EncryptionKey<E>, 0), plain!(Vec<G1<E>>, 1));
            let (v, r) = Encryption::<E>::encrypt_decomposed_message(&mut rng, a.m.clone(), &ek, &g).map_err(es)?;
            vec![raw!(v), raw!(r)]
        }
        // [ek, g, message]
        "encrypt" => {
            let (ek, g, f) = (take!(EncryptionKey<E>, 0), plain!(Vec<G1<E>>, 1), plain!(F<E>, 2));
            let (ct, r) = Encryption::<E>::encrypt(&mut rng, &f, &ek, &g, bits).map_err(es)?;
            vec![put!(ct), raw!(r)]
        }
        // [ek, vk, message]
        "encrypt_vk" => {
            let (ek, vk, f) = (take!(EncryptionKey<E>, 0), plain!(VerifyingKey<E>, 1), plain!(F<E>, 2));
            let (ct, r) = Encryption::<E>::encrypt_given_snark_vk(&mut rng, &f, &ek, &vk, bits).map_err(es)?;
            vec![put!(ct), raw!(r)]
        }
        // [ek, pk, message]
        "encrypt_proof" => {
            let (ek, pk, f) = (take!(EncryptionKey<E>, 0), plain!(ProvingKey<E>, 1), plain!(F<E>, 2));
            let (ct, r, pr) = Encryption::<E>::encrypt_with_proof(&mut rng, &f, &ek, &pk, bits).map_err(es)?;
            vec![put!(ct), raw!(r), raw!(pr)]
        }
        // [ek, pk, r], chunks
        "prove" => {
            let (ek, pk, r) = (take!(EncryptionKey<E>, 0), plain!(ProvingKey<E>, 1), plain!(F<E>, 2));
            let vals: Vec<F<E>> = a.m.iter().map(|x| F::<E>::from(*x as u64)).collect();
            let circ = BitsizeCheckCircuit::new(bits, None, Some(vals), true);
            vec![raw!(saver_groth16::create_proof(circ, &r, &pk, &ek, &mut rng).map_err(es)?)]
        }
        // [ct, ek, gens]
        "verify_commitment" => {
            let (ct, ek, gens) = (take!(Ciphertext<E>, 0), take!(EncryptionKey<E>, 1), take!(EncryptionGens<E>, 2));
            if a.k & 1 == 0 {
                ct.verify_commitment(ek, gens).map_err(es)?
            } else {
                ct.verify_commitment(PreparedEncryptionKey::from(ek), PreparedEncryptionGens::from(gens)).map_err(es)?
            }
            vec![]
        }
        // [ct, pvk, proof]
        "verify_proof" => {
            let (ct, pvk, pr) = (take!(Ciphertext<E>, 0), plain!(VerifyingKey<E>, 1), plain!(Proof<E>, 2));
            saver_groth16::verify_proof(&saver_groth16::prepare_verifying_key(&pvk), &pr, &ct).map_err(es)?;
            vec![]
        }
        // [ct, ek, gens, pvk, proof]
        "verify_both" => {
            let (ct, ek, gens) = (take!(Ciphertext<E>, 0), take!(EncryptionKey<E>, 1), take!(EncryptionGens<E>, 2));
            let (vk, pr) = (plain!(VerifyingKey<E>, 3), plain!(Proof<E>, 4));
            let pvk: PreparedVerifyingKey<E> = saver_groth16::prepare_verifying_key(&vk);
            ct.verify_commitment_and_proof(&pr, &pvk, ek, gens).map_err(es)?;
            vec![]
        }
        // [ek, gens, r_powers, ct...]
        "verify_batch" => {
            let (ek, gens, rp) = (take!(EncryptionKey<E>, 0), take!(EncryptionGens<E>, 1), plain!(Vec<F<E>>, 2));
            let mut v = vec![];
            for i in 3..a.b.len() {
                v.push(take!(Ciphertext<E>, i));
            }
            if a.k & 1 == 0 {
                Encryption::<E>::verify_commitments_in_batch(&v, &rp, ek, gens).map_err(es)?
            } else {
                Encryption::<E>::verify_commitments_in_batch(&v, &rp, PreparedEncryptionKey::from(ek), PreparedEncryptionGens::from(gens)).map_err(es)?
            }
            vec![]
        }
        // what the two checks pair: [ct, commitment...]
        "pairing_left" => {
            let rp = plain!(Vec<F<E>>, 0);
            let mut v = vec![];
            for i in 1..a.b.len() {
                v.push(take!(Ciphertext<E>, i));
            }
            let one = Encryption::<E>::get_g1_for_ciphertext_commitment_pairing_checks(&v[0].X_r, &v[0].enc_chunks, &v[0].commitment);
            vec![raw!(one), raw!(Encryption::<E>::get_g1_for_ciphertext_commitments_in_batch_pairing_checks(&v, &rp))]
        }
        // [vk, ct]
        "calculate_d" => {
            let (vk, ct) = (plain!(VerifyingKey<E>, 0), take!(Ciphertext<E>, 1));
            vec![raw!(saver_groth16::calculate_d(&saver_groth16::prepare_verifying_key(&vk), &ct).map_err(es)?)]
        }
        // [ct, sk, dk, g, vk?]
        "decrypt" => {
            let (ct, sk, dk, g) = (take!(Ciphertext<E>, 0), take!(SecretKey<F<E>>, 1), take!(DecryptionKey<E>, 2), plain!(Vec<G1<E>>, 3));
            match a.k % 5 {
                0 => {
                    let (m, nu) = Encryption::<E>::decrypt_to_chunks(&ct.X_r, &ct.enc_chunks, &sk, dk, &g, bits).map_err(es)?;
                    vec![raw!(m), raw!(nu)]
                }
                1 => {
                    let (m, nu) = Encryption::<E>::decrypt_to_chunks(&ct.X_r, &ct.enc_chunks, &sk, PreparedDecryptionKey::from(dk), &g, bits).map_err(es)?;
                    vec![raw!(m), raw!(nu)]
                }
                2 => {
                    let pp = dk.pairing_powers(bits, &g).map_err(es)?;
                    let (m, nu) = Encryption::<E>::decrypt_to_chunks_given_pairing_powers(&ct.X_r, &ct.enc_chunks, &sk, dk, &g, bits, Some(&pp)).map_err(es)?;
                    vec![raw!(m), raw!(nu)]
                }
                3 => {
                    let (m, nu) = ct.decrypt(&sk, dk, &g, bits).map_err(es)?;
                    vec![raw!(m), raw!(nu)]
                }
                _ => {
                    let pdk = PreparedDecryptionKey::from(dk);
                    let pp = pdk.pairing_powers(bits, &g).map_err(es)?;
                    let (m, nu) = ct.decrypt_given_pairing_powers(&sk, pdk, &g, bits, &pp).map_err(es)?;
                    vec![raw!(m), raw!(nu)]
                }
            }
        }
        // [gens, c_0, c, dest pk, sk]
        "share" => {
            let (gens, c0, c) = (take!(EncryptionGens<E>, 0), plain!(G1<E>, 1), plain!(Vec<G1<E>>, 2));
            let (pk, sk) = (take!(FEncryptionKeyDest<E>, 3), take!(SecretKeyST<E>, 4));
            let (w, g) = Encryption::<E>::re_encrypt_share(&mut rng, &gens, &c0, &c, &pk, &sk).map_err(es)?;
            vec![raw!(w), raw!(g)]
        }
        // [g1, g2, w1, w2]
        "share_sum" => {
            let (w, g) = Encryption::<E>::combine_re_encrypt_share(&plain!(G1<E>, 0), &plain!(G1<E>, 1), &plain!(Vec<G1<E>>, 2), &plain!(Vec<G1<E>>, 3)).map_err(es)?;
            vec![raw!(w), raw!(g)]
        }
        // [gens, c, g_r, w]
        "switch" => {
            let gens = take!(EncryptionGens<E>, 0);
            vec![raw!(Encryption::<E>::combine_ct_with_w(&gens, &plain!(Vec<G1<E>>, 1), &plain!(G1<E>, 2), &plain!(Vec<G1<E>>, 3)).map_err(es)?)]
        }
        "add" => vec![raw!(Encryption::<E>::add_cts(&plain!(Vec<G1<E>>, 0), &plain!(Vec<G1<E>>, 1)).map_err(es)?)],
        // [c_0, c, sk, g]
        "open" => {
            let (c0, c, sk, g) = (plain!(G1<E>, 0), plain!(Vec<G1<E>>, 1), take!(SecretKey<F<E>>, 2), plain!(Vec<G1<E>>, 3));
            vec![raw!(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&c0, &c, &sk, &g, bits).map_err(es)?)]
        }
        // [bytes]
        "hash" => {
            use ark_ec::CurveGroup;
            let p: E::G1 = utils::projective_group_elem_from_try_and_incr::<G1<E>, Blake2b512>(&a.b[0]);
            let f: F<E> = utils::field_elem_from_try_and_incr::<F<E>, Blake2b512>(&a.b[0]);
            vec![raw!(p.into_affine()), raw!(f)]
        }
        // [message, blinding, commitment gens]
        "commit" => {
            let (f, b, g) = (plain!(F<E>, 0), plain!(F<E>, 1), take!(ChunkedCommitmentGens<G1<E>>, 2));
            let c = ChunkedCommitment::<G1<E>>::new(&f, &b, bits, &g).map_err(es)?;
            let ck = ChunkedCommitment::<G1<E>>::commitment_key(&g, bits);
            let d = ChunkedCommitment::<G1<E>>::get_commitment_given_commitment_key(&f, &b, bits, &ck).map_err(es)?;
            vec![put!(c), raw!(ck), raw!(d)]
        }
        "split" => {
            let f = plain!(F<E>, 0);
            let m = utils::decompose(&f, bits).map_err(es)?;
            let back: F<E> = utils::compose(&m, bits).map_err(es)?;
            vec![raw!(m), raw!(back), vec![utils::chunks_count::<F<E>>(bits)], utils::chunk_max_value(bits).to_le_bytes().to_vec()]
        }
        "compose" => {
            let back: F<E> = utils::compose(&a.m, bits).map_err(es)?;
            vec![raw!(back)]
        }
        // [point, scalars]
        "table" => {
            use ark_ec::{AffineRepr, CurveGroup};
            let (p, v) = (plain!(G1<E>, 0), plain!(Vec<F<E>>, 1));
            let t = utils::WindowTable::<E::G1>::new(a.k as usize, p.into_group());
            let many: Vec<G1<E>> = E::G1::normalize_batch(&t.multiply_many(&v));
            let same: Vec<G1<E>> = E::G1::normalize_batch(&utils::multiply_field_elems_with_same_group_elem(p.into_group(), &v));
            let one: Vec<G1<E>> = v.iter().map(|x| t.multiply(x).into_affine()).collect();
            vec![raw!(many), raw!(same), raw!(one)]
        }
        "join" => {
            use lib::join;
            let v = plain!(Vec<F<E>>, 0);
            let x = |i: usize| v[i % v.len()] * v[(i + 1) % v.len()];
            let (p, q) = join!(x(0), x(1));
            let (r, s, t) = join!(x(2), x(3), x(4));
            let (i, j, k, l) = join!(x(5), x(6), x(7), x(8));
            vec![raw!(vec![p, q, r, s, t, i, j, k, l])]
        }
        _ => return Err(format!("no such operation {}", op)),
    })
}
