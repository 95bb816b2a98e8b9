//! C10: proofs made from true and false witnesses, verified against true and altered statements.
#[path = "../../../common/fld.rs"]
mod fld;
#[path = "../../../common/space_util.rs"]
mod space_util;
#[path = "../../../common/util.rs"]
mod util;
use ark_bls12_381::{Bls12_381, Fr};
use ark_ec::ProjectiveCurve;
use ark_ff::Zero;
use ark_groth16::{PreparedVerifyingKey, Proof};
use fld::*;
use proof_of_space::mimc::mimc_hash::multi_mimc5_hash;
use proof_of_space::proof_of_space::pospace::*;
use proof_of_space::proof_of_space::prover::*;
use proof_of_space::proof_of_space::verifier::verify;
use rand::{rngs::StdRng, Rng};
use space_util::*;
use std::sync::{Arc, Mutex};
use util::*;

#[derive(Clone)]
struct St {
    key: Fr,
    m: Fr,
    chal: Vec<usize>,
    idx: Vec<usize>,
    xs: Vec<Fr>,
    h: Fr,
    setup: usize,
}
type P = Option<(PreparedVerifyingKey<Bls12_381>, Proof<Bls12_381>)>;

/// A true statement: challenges with known answers at `idx`, arbitrary ones elsewhere.
fn honest(r: &mut StdRng, key: Fr, m: Fr, c: &Vec<Fr>, hc: &Vec<Fr>, count: usize, total: usize, kind: usize) -> St {
    let mut idx: Vec<usize> = (0..total).collect();
    while idx.len() > count {
        let i = r.gen_range(0..idx.len());
        idx.remove(i);
    }
    if kind == 1 {
        idx = (total - count..total).collect();
    }
    if kind == 2 {
        idx = (0..count).collect();
    }
    let mut chal: Vec<usize> = (0..total).map(|_| r.gen_range(0..1 << N)).collect();
    let mut xs = vec![];
    for (j, &i) in idx.iter().enumerate() {
        let x = match (kind, j) {
            (1, 0) => 0,
            (1, 1) => (1 << N) - 1,
            (1, _) if j % 7 == 3 => 5,
            _ => r.gen_range(0..1 << N),
        };
        chal[i] = df_low(x, key, m, c, N);
        xs.push(fint(x));
    }
    let h = multi_mimc5_hash(&xs, key, hc);
    St { key, m, chal, idx, xs, h, setup: 0 }
}
fn stmt(st: &St) -> Vec<(&'static str, J)> {
    vec![("key", s(fh(st.key))), ("m", s(fh(st.m))), ("chal", J::A(st.chal.iter().map(|c| s(format!("{:x}", c))).collect())), ("idx", ns(&st.idx)), ("h", s(fh(st.h)))]
}
fn main() {
    let mut o = Out::new();
    for sess in 0..q(1, 4) {
        run(&mut o, sess);
    }
    o.done();
}
fn run(o: &mut Out, sess: usize) {
    let mut r = rng(1000 + sess as u64);
    let cs: Vec<(Vec<Fr>, Vec<Fr>)> = (0..2).map(|i| (df_consts(&mut r, 3 * i), hash_consts(&mut r, i))).collect();
    o.note("construct_circuit");
    let setups: Vec<_> = std::thread::scope(|t| {
        let hs: Vec<_> = cs.iter().map(|(c, h)| t.spawn(move || construct_circuit(c, h))).collect();
        hs.into_iter().map(|h| h.join().ok()).collect()
    });
    let (c, hc) = &cs[0];
    let rc = RESPONSE_COUNT;
    let cc = CHALLENGE_COUNT.max(rc + 7);
    let (key, m): (Fr, Fr) = (frand(&mut r), frand(&mut r));
    let mut sts: Vec<(&'static str, St)> = vec![];
    let a = honest(&mut r, key, m, c, hc, rc, cc, 0);
    sts.push(("honest", a.clone()));
    sts.push(("honest, same statement again", a.clone()));
    sts.push(("honest, other challenges", honest(&mut r, key, m, c, hc, rc, cc, 0)));
    let (k2, m2): (Fr, Fr) = (frand(&mut r), frand(&mut r));
    sts.push(("honest, other session", honest(&mut r, k2, m2, c, hc, rc, cc, 2)));
    sts.push(("honest, zero key and m, repeated challenges, boundary answers", honest(&mut r, Fr::zero(), Fr::zero(), c, hc, rc, cc, 1)));
    let mut b = honest(&mut r, key, m, &cs[1].0, &cs[1].1, rc, cc, 0);
    b.setup = 1;
    sts.push(("honest, other setup", b));
    // false witnesses
    let mut z = a.clone();
    let j = r.gen_range(0..rc);
    z.xs[j] += Fr::from(1u64);
    z.h = multi_mimc5_hash(&z.xs, key, hc);
    sts.push(("false answer", z));
    let mut z = a.clone();
    z.h += Fr::from(1u64);
    sts.push(("false hash", z));
    let mut z = a.clone();
    let j = z.idx[rc - 1];
    z.chal[j] ^= 1 << (N - 1);
    sts.push(("false last challenge", z));
    let mut z = a.clone();
    let j = z.idx[0];
    z.chal[j] += 1 << N;
    sts.push(("challenge out of range", z));
    let mut z = a.clone();
    z.m += Fr::from(1u64);
    sts.push(("answers for another m", z));
    let mut z = a.clone();
    z.key = k2;
    z.h = multi_mimc5_hash(&z.xs, k2, hc);
    sts.push(("answers for another key", z));
    let mut z = a.clone();
    z.xs[1] = z.xs[0];
    z.idx[1] = z.idx[0];
    z.h = multi_mimc5_hash(&z.xs, key, hc);
    sts.push(("one position twice", z));
    let mut z = a.clone();
    z.xs = vec![z.xs[3]; rc];
    z.idx = vec![z.idx[3]; rc];
    z.h = multi_mimc5_hash(&z.xs, key, hc);
    sts.push(("one position throughout", z));
    let mut z = a.clone();
    z.xs[rc - 1] = z.xs[0];
    z.idx[rc - 1] = z.idx[0];
    z.h = multi_mimc5_hash(&z.xs, key, hc);
    sts.push(("first position again at the end", z));
    sts.push(("too few responses", honest(&mut r, key, m, c, hc, rc - 1, cc, 0)));
    sts.push(("too many responses", honest(&mut r, key, m, c, hc, rc + 1, cc, 0)));
    sts.push(("no response", honest(&mut r, key, m, c, hc, 0, cc, 0)));

    let made: Arc<Mutex<Vec<P>>> = Arc::new(Mutex::new(vec![None; sts.len()]));
    let next = Arc::new(Mutex::new(0usize));
    std::thread::scope(|t| {
        for _ in 0..8 {
            let (made, next, sts, setups, cs, o) = (made.clone(), next.clone(), &sts, &setups, &cs, &*o);
            t.spawn(move || loop {
                let i = {
                    let mut g = next.lock().unwrap();
                    *g += 1;
                    *g - 1
                };
                if i >= sts.len() {
                    break;
                }
                let (name, st) = &sts[i];
                o.note(format!("response_2: {}", name));
                let (c, hc) = &cs[st.setup];
                if let Some(pk) = &setups[st.setup] {
                    let p = catch(|| response_2(pk.clone(), st.key, &st.xs, st.m, c, &st.chal, &st.idx, st.h, hc));
                    made.lock().unwrap()[i] = p;
                }
            });
        }
    });
    let made = made.lock().unwrap();
    let mut ev = vec![J::O(vec![("f", s("cfg")), ("p", s(modulus::<Fr>())), ("n", n(N)), ("limit", n(rc)), ("c", J::A(cs.iter().map(|x| fs(&x.0)).collect())), ("hc", J::A(cs.iter().map(|x| fs(&x.1)).collect()))])];
    for (i, (name, st)) in sts.iter().enumerate() {
        let mut e = vec![("f", s("prove")), ("what", s(*name)), ("ok", J::B(made[i].is_some())), ("xs", fs(&st.xs))];
        e.push(("setup", n(st.setup + 1)));
        e.extend(stmt(st));
        ev.push(J::O(e));
    }
    // a proof put together from elements of proofs; element 4 is the verification key
    let mut asks: Vec<(String, St, [usize; 4], Option<Proof<Bls12_381>>)> = vec![];
    for i in 0..sts.len() {
        asks.push((format!("as made: {}", sts[i].0), sts[i].1.clone(), [i; 4], None));
    }
    // false proofs presented with the true statement and the reverse
    for i in 6..sts.len() {
        asks.push((format!("true statement, proof: {}", sts[i].0), a.clone(), [i; 4], None));
        asks.push((format!("honest proof, statement: {}", sts[i].0), sts[i].1.clone(), [0; 4], None));
    }
    for (i, j) in [(0, 2), (2, 0), (0, 3), (3, 0), (0, 4), (4, 0)] {
        asks.push((format!("statement {}, proof {}", i, j), sts[i].1.clone(), [j; 4], None));
    }
    for parts in [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [2, 0, 0, 0], [0, 2, 0, 0], [0, 0, 2, 0], [3, 3, 0, 0], [2, 3, 0, 0], [0, 0, 0, 5]] {
        asks.push((format!("elements {:?}", parts), a.clone(), parts, None));
    }
    for base in q(vec![0], vec![0, 4]) {
        let a = &sts[base].1;
        let add = |asks: &mut Vec<(String, St, [usize; 4], Option<Proof<Bls12_381>>)>, what: &str, f: &mut dyn FnMut(&mut St)| {
            let mut z = a.clone();
            f(&mut z);
            asks.push((format!("altered: {}", what), z, [base; 4], None));
        };
        let d: Vec<Fr> = vec![Fr::from(1u64), -Fr::from(1u64), frand(&mut r)];
        for d in &d {
            add(&mut asks, "key", &mut |z| z.key += d);
            add(&mut asks, "m", &mut |z| z.m += d);
            add(&mut asks, "hash", &mut |z| z.h += d);
            add(&mut asks, "key and m", &mut |z| {
                z.key += d;
                z.m -= d
            });
            add(&mut asks, "key and hash", &mut |z| {
                z.key += d;
                z.h -= d
            });
            add(&mut asks, "m and hash", &mut |z| {
                z.m += d;
                z.h += d
            });
        }
        for v in [Fr::from(0u64), Fr::from(1u64), -Fr::from(1u64)] {
            add(&mut asks, "special key", &mut |z| z.key = v);
            add(&mut asks, "special m", &mut |z| z.m = v);
            add(&mut asks, "special hash", &mut |z| z.h = v);
            add(&mut asks, "special key, m and hash", &mut |z| {
                z.key = v;
                z.m = v;
                z.h = v
            });
        }
        add(&mut asks, "every challenge zero", &mut |z| z.chal.iter_mut().for_each(|c| *c = 0));
        add(&mut asks, "key and m swapped", &mut |z| std::mem::swap(&mut z.key, &mut z.m));
        add(&mut asks, "key and hash swapped", &mut |z| std::mem::swap(&mut z.key, &mut z.h));
        for k in 0..rc {
            let i = a.idx[k];
            add(&mut asks, "one challenge", &mut |z| z.chal[i] ^= 1 << (k % N));
            add(&mut asks, "one position", &mut |z| {
                let free: Vec<usize> = (0..z.chal.len()).filter(|i| !z.idx.contains(i)).collect();
                if let Some(f) = free.get(k % free.len().max(1)) {
                    z.idx[k] = *f
                }
            });
            if k > 0 {
                add(&mut asks, "one position repeated", &mut |z| z.idx[k] = z.idx[k - 1]);
                add(&mut asks, "two responses swapped", &mut |z| z.idx.swap(k, k - 1));
            }
            add(&mut asks, "one response left out", &mut |z| {
                z.idx.remove(k);
            });
        }
        add(&mut asks, "one response more", &mut |z| {
            let free: Vec<usize> = (0..z.chal.len()).filter(|i| !z.idx.contains(i)).collect();
            z.idx.push(free[0])
        });
        add(&mut asks, "positions reversed", &mut |z| z.idx.reverse());
        add(&mut asks, "no responses", &mut |z| z.idx.clear());
        add(&mut asks, "positions moved to the front", &mut |z| z.idx = (0..rc).collect());
        add(&mut asks, "positions shifted", &mut |z| {
            for i in z.idx.iter_mut() {
                *i = (*i + 1) % z.chal.len()
            }
        });
        add(&mut asks, "two challenges, same sum", &mut |z| {
            let (i, j) = (z.idx[2], z.idx[5]);
            z.chal[i] += 1;
            z.chal[j] = z.chal[j].wrapping_sub(1) & ((1 << 30) - 1);
        });
    }
    // more positions than responses, positions past the end of the list, the same one under other names
    for base in [0usize, 3, 4] {
        let a = &sts[base].1;
        let len = a.chal.len();
        let mut add = |what: &str, f: &mut dyn FnMut(&mut St)| {
            let mut z = a.clone();
            f(&mut z);
            asks.push((format!("altered: {}", what), z, [base; 4], None));
        };
        for extra in [1usize, 2, 5] {
            add("later positions added", &mut |z| {
                let last = *z.idx.last().unwrap();
                let from = if last + extra < len { last + 1 } else { len };
                z.idx.extend(from..from + extra)
            });
            add("positions added in order", &mut |z| {
                let free: Vec<usize> = (0..len).filter(|i| !z.idx.contains(i)).collect();
                z.idx.extend(free.iter().rev().take(extra));
                z.idx.sort();
            });
        }
        for by in [1usize, 2] {
            add("last position past the end", &mut |z| z.idx[rc - 1] += by * len);
            add("all positions past the end", &mut |z| z.idx.iter_mut().for_each(|i| *i += by * len));
            add("last position the end", &mut |z| z.idx[rc - 1] = len + by - 1);
        }
        add("list cut short", &mut |z| z.chal.truncate(len - 5));
        add("list empty", &mut |z| z.chal.clear());
        for k in [0usize, 1, rc / 2, rc - 1] {
            let i = a.idx[k];
            add("challenge out of range", &mut |z| z.chal[i] += 1 << N);
            for k in [16, 24, 31, 32, 48, 62, 63] {
                add("challenge with one more bit", &mut |z| z.chal[i] ^= 1 << k);
            }
            add("challenge next", &mut |z| z.chal[i] += 1);
            add("challenge zero", &mut |z| z.chal[i] = 0);
        }
    }
    for (i, (name, st)) in sts.iter().enumerate() {
        if name.contains("one position throughout") || name.contains("first position again") {
            let mut z = st.clone();
            let mut seen: Vec<usize> = vec![];
            for p in z.idx.iter_mut() {
                while seen.contains(p) {
                    *p += z.chal.len();
                }
                seen.push(*p);
            }
            asks.push((format!("{} under other names", name), z, [i; 4], None));
        }
    }
    if let Some((_, p)) = &made[0] {
        let neg = |x: &ark_bls12_381::G1Affine| -*x;
        let mut q1 = p.clone();
        q1.a = neg(&q1.a);
        let mut q2 = p.clone();
        q2.c = neg(&q2.c);
        let mut q3 = p.clone();
        q3.a = (q3.a.into_projective_double()).into_affine();
        let mut q4 = p.clone();
        std::mem::swap(&mut q4.a, &mut q4.c);
        for (w, p) in [("negated a", q1), ("negated c", q2), ("doubled a", q3), ("a and c swapped", q4), ("default", Proof::default())] {
            asks.push((format!("proof: {}", w), a.clone(), [0; 4], Some(p)));
        }
    }
    for (what, st, parts, other) in asks {
        if parts.iter().any(|&i| made[i].is_none()) {
            continue;
        }
        o.note(format!("verify: {}", what));
        let g = |i: usize| &made[parts[i]].as_ref().unwrap().1;
        let changed = other.is_some();
        let p = other.unwrap_or(Proof { a: g(0).a, b: g(1).b, c: g(2).c });
        let pvk = made[parts[3]].as_ref().unwrap().0.clone();
        let ok = catch(|| verify(pvk, p, st.key, st.m, &st.chal, &st.idx, st.h)).is_some();
        let parts: Vec<usize> = if changed { vec![0, 0, 0, parts[3] + 1] } else { parts.iter().map(|i| i + 1).collect() };
        let mut e = vec![("f", s("verify")), ("what", s(what)), ("parts", ns(&parts)), ("accepted", J::B(ok))];
        e.extend(stmt(&st));
        ev.push(J::O(e));
    }
    o.session(&format!("space proofs {}", sess), ev);
}
trait Dbl {
    fn into_projective_double(self) -> ark_bls12_381::G1Projective;
}
impl Dbl for ark_bls12_381::G1Affine {
    fn into_projective_double(self) -> ark_bls12_381::G1Projective {
        let p: ark_bls12_381::G1Projective = self.into();
        p.double()
    }
}
