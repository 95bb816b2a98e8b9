//! C22: session parameters, setups and proofs are drawn afresh.
#[path = "../../../common/fld.rs"]
mod fld;
#[path = "../../../common/space_util.rs"]
mod space_util;
#[path = "../../../common/util.rs"]
mod util;
use ark_bls12_381::Fr;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use fld::*;
use proof_of_space::mimc::mimc_df::MIMC5_DF_ROUNDS;
use proof_of_space::mimc::mimc_hash::{multi_mimc5_hash, MIMC5_HASH_ROUNDS};
use proof_of_space::proof_of_space::pospace::*;
use proof_of_space::proof_of_space::prover::*;
use rand::Rng;
use space_util::*;
use util::*;

fn params() -> J {
    let x = catch(prepare_params);
    let ok = x.is_some();
    let (c, h, k, m) = x.unwrap_or((vec![], vec![], Fr::from(0u64), Fr::from(0u64)));
    let mut v = vec![s(fh(k)), s(fh(m))];
    v.extend(c.iter().map(|&x| s(fh(x))));
    v.extend(h.iter().map(|&x| s(fh(x))));
    J::O(vec![
        ("f", s("params")),
        ("ok", J::B(ok)),
        ("ndf", n(c.len())),
        ("rdf", n(MIMC5_DF_ROUNDS)),
        ("nh", n(h.len())),
        ("rh", n(MIMC5_HASH_ROUNDS)),
        ("vals", J::A(v)),
    ])
}
type Pk = ark_groth16::ProvingKey<ark_bls12_381::Bls12_381>;
fn setup_event(p: &Option<Pk>) -> J {
    let mut v = vec![];
    if let Some(p) = p {
        v.push(s(format!("{:?}", p.vk.alpha_g1)));
        v.push(s(format!("{:?}", p.vk.beta_g2)));
        v.push(s(format!("{:?}", p.vk.gamma_g2)));
        v.push(s(format!("{:?}", p.vk.delta_g2)));
        v.push(s(format!("{:?}", p.delta_g1)));
        v.push(s(format!("{:?}", p.beta_g1)));
        v.extend(p.vk.gamma_abc_g1.iter().map(|x| s(format!("{:?}", x))));
    }
    J::O(vec![("f", s("setup")), ("ok", J::B(p.is_some())), ("vals", J::A(v))])
}
/// a true statement and its witness
struct Stmt {
    key: Fr,
    m: Fr,
    chal: Vec<usize>,
    idx: Vec<usize>,
    xf: Vec<Fr>,
    h: Fr,
}
fn stmt(r: &mut rand::rngs::StdRng, c: &Vec<Fr>, hc: &Vec<Fr>) -> Stmt {
    let (key, m): (Fr, Fr) = (frand(r), frand(r));
    let xs: Vec<usize> = (0..RESPONSE_COUNT).map(|_| r.gen_range(0..1 << N)).collect();
    let chal: Vec<usize> = xs.iter().map(|&x| df_low(x, key, m, &c, N)).collect();
    let idx: Vec<usize> = (0..RESPONSE_COUNT).collect();
    let xf: Vec<Fr> = xs.iter().map(|&x| fint(x)).collect();
    let h = multi_mimc5_hash(&xf, key, &hc);
    Stmt { key, m, chal, idx, xf, h }
}
fn proof_event(p: &Option<Pk>, t: &Stmt, c: &Vec<Fr>, hc: &Vec<Fr>) -> J {
    let x = p.clone().and_then(|p| catch(|| response_2(p, t.key, &t.xf, t.m, &c, &t.chal, &t.idx, t.h, &hc)));
    let mut v = vec![];
    if let Some((_, p)) = &x {
        v = vec![s(format!("{:?}", p.a)), s(format!("{:?}", p.b)), s(format!("{:?}", p.c))];
    }
    J::O(vec![("f", s("proof")), ("ok", J::B(x.is_some())), ("vals", J::A(v))])
}
fn main() {
    let mut r = rng(22);
    if let Some(what) = asked() {
        if what == "params" {
            return answer(vec![params(), params()]);
        }
        // the same constants and statement in every process
        let (c, hc) = (df_consts(&mut r, 0), hash_consts(&mut r, 0));
        // under a setup of its own, or under one all share
        let p = match what.strip_prefix("under ") {
            Some(f) => Pk::deserialize_unchecked(&std::fs::read(f).unwrap()[..]).ok(),
            None => catch(|| construct_circuit(&c, &hc)),
        };
        let t = stmt(&mut r, &c, &hc);
        if what != "proof" {
            return answer(vec![proof_event(&p, &t, &c, &hc), proof_event(&p, &t, &c, &hc)]);
        }
        return answer(vec![setup_event(&p), proof_event(&p, &t, &c, &hc)]);
    }
    let mut o = Out::new();
    // parameters
    o.note("prepare_params");
    let mut e = vec![];
    for _ in 0..q(12, 40) {
        e.push(params());
    }
    o.session("parameters", e);
    o.note("parameters of several processes");
    o.session("parameters of several processes", elsewhere(4, "params"));
    o.note("setups and proofs of several processes");
    o.session("setups and proofs of several processes", elsewhere(2, "proof"));
    o.note("proofs of several processes under one setup");
    {
        let (c, hc) = (df_consts(&mut r, 0), hash_consts(&mut r, 0));
        if let Some(p) = catch(|| construct_circuit(&c, &hc)) {
            let f = format!("{}/setup", scratch());
            let mut d = vec![];
            p.serialize_unchecked(&mut d).unwrap();
            std::fs::write(&f, &d).unwrap();
            o.session("proofs of several processes under one setup", elsewhere(3, &format!("under {}", f)));
        }
    }
    let draws: Vec<_> = (0..600).filter_map(|_| catch(prepare_params)).collect();
    let pick: Vec<(&str, Box<dyn Fn(&(Vec<Fr>, Vec<Fr>, Fr, Fr)) -> Fr>)> = vec![
        ("key", Box::new(|x| x.2)),
        ("m", Box::new(|x| x.3)),
        ("key - m", Box::new(|x| x.2 - x.3)),
        ("first round constant", Box::new(|x| x.0[0])),
        ("last round constant", Box::new(|x| x.0[x.0.len() - 1])),
        ("difference of round constants", Box::new(|x| x.0[1] - x.0[0])),
        ("second hash constant", Box::new(|x| x.1[1])),
        ("last hash constant", Box::new(|x| x.1[x.1.len() - 1])),
    ];
    for (name, f) in pick {
        let v: Vec<J> = draws.iter().map(|x| s(fh(f(x)))).collect();
        // the topmost bit of a field element leans a little
        o.session(name, vec![J::O(vec![("f", s("spread")), ("bits", n(254)), ("vals", J::A(v))])]);
    }
    o.note("many parameters");
    let many: Vec<_> = (0..q(6000, 30000)).map(|_| catch(prepare_params)).collect();
    for (i, name) in ["many keys", "many session values", "many first constants", "many last constants"].into_iter().enumerate() {
        let v: Vec<J> = many.iter().map(|x| s(x.as_ref().map(|x| fh([x.2, x.3, x.0[0], x.1[x.1.len() - 1]][i])).unwrap_or_default())).collect();
        o.session(name, vec![J::O(vec![("f", s("distinct")), ("vals", J::A(v))])]);
    }
    // setups for the same constants, one after the other and at the same time
    o.note("construct_circuit");
    let (c, hc) = (df_consts(&mut r, 0), hash_consts(&mut r, 0));
    let setups: Vec<_> = std::thread::scope(|t| {
        let hs: Vec<_> = (0..2).map(|_| t.spawn(|| construct_circuit(&c, &hc))).collect();
        hs.into_iter().map(|h| h.join().ok()).collect()
    });
    let mut e = vec![];
    for p in &setups {
        e.push(setup_event(p));
    }
    o.session("setups", e);
    // proofs of one statement, under one setup and under the other
    o.note("response_2");
    let t = stmt(&mut r, &c, &hc);
    let one = |p: usize| proof_event(&setups[p], &t, &c, &hc);
    let mut e: Vec<J> = std::thread::scope(|t| {
        let hs: Vec<_> = [0, 0, 1, 0]
            .iter()
            .map(|&p| {
                t.spawn({
                    let one = &one;
                    move || one(p)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    // one after the other in the same thread, too
    for _ in 0..q(2, 8) {
        e.push(one(0));
    }
    o.session("proofs of one statement", e);
    // many of them: none repeats, so that they are not picked from few
    o.note("many setups and proofs");
    let drawn: Vec<Vec<Vec<String>>> = together(8, |_| {
        (0..q(5, 30))
            .map(|_| {
                let p = catch(|| construct_circuit(&c, &hc));
                let mut v = p.as_ref().map(|p| vec![format!("{:?}", p.vk.alpha_g1), format!("{:?}", p.vk.beta_g2), format!("{:?}", p.vk.gamma_g2), format!("{:?}", p.vk.delta_g2)]).unwrap_or(vec![String::new(); 4]);
                let x = setups[0].clone().and_then(|p| catch(|| response_2(p, t.key, &t.xf, t.m, &c, &t.chal, &t.idx, t.h, &hc)));
                v.extend(x.map(|(_, p)| vec![format!("{:?}", p.a), format!("{:?}", p.b), format!("{:?}", p.c)]).unwrap_or(vec![String::new(); 3]));
                v
            })
            .collect()
    });
    for (i, name) in ["alpha of many setups", "beta of many setups", "gamma of many setups", "delta of many setups", "first elements of many proofs", "second elements of many proofs", "third elements of many proofs"].into_iter().enumerate() {
        let v: Vec<J> = drawn.iter().flatten().map(|x| s(&*x[i])).collect();
        o.session(name, vec![J::O(vec![("f", s("distinct")), ("vals", J::A(v))])]);
    }
    o.done();
}
