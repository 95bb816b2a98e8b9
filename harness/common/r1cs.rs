//! Constraint systems generated by the real circuits: extraction, shape, location of the
//! committed inputs, and search for other satisfying assignments.
#![allow(dead_code)]
use super::fld::*;
use super::util::*;
use ark_ff::PrimeField;
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem, SynthesisMode};
use rand::rngs::StdRng;
use rand::Rng;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::io::Write;

pub type Row<F> = Vec<(F, usize)>;
/// Variable 0 is the constant one, 1..ni are the public values, ni.. the witness.
pub struct Sys<F: PrimeField> {
    pub ni: usize,
    pub nv: usize,
    pub cons: Vec<[Row<F>; 3]>,
    pub val: Vec<F>,
}
fn canon<F: PrimeField>(r: &[(F, usize)]) -> Row<F> {
    let mut m: std::collections::BTreeMap<usize, F> = Default::default();
    for (c, v) in r {
        *m.entry(*v).or_insert(F::zero()) += *c;
    }
    m.into_iter().filter(|(_, c)| !c.is_zero()).map(|(v, c)| (c, v)).collect()
}
/// None if generation failed or panicked.
pub fn synth<F: PrimeField, C: ConstraintSynthesizer<F>>(c: C, setup: bool) -> Option<Sys<F>> {
    catch(|| {
        let cs = ConstraintSystem::<F>::new_ref();
        cs.set_mode(if setup { SynthesisMode::Setup } else { SynthesisMode::Prove { construct_matrices: true } });
        c.generate_constraints(cs.clone()).ok()?;
        cs.finalize();
        let m = cs.to_matrices()?;
        let b = cs.borrow()?;
        let mut val = b.instance_assignment.clone();
        val.extend(b.witness_assignment.iter());
        let ni = cs.num_instance_variables();
        let nv = ni + cs.num_witness_variables();
        if !setup && val.len() != nv {
            return None;
        }
        let cons = (0..m.a.len()).map(|i| [canon(&m.a[i]), canon(&m.b[i]), canon(&m.c[i])]).collect();
        Some(Sys { ni, nv, cons, val })
    })
    .flatten()
}
pub fn lc<F: PrimeField>(r: &Row<F>, val: &[F]) -> F {
    r.iter().map(|(c, v)| *c * val[*v]).sum()
}
impl<F: PrimeField> Sys<F> {
    pub fn satisfied(&self, val: &[F]) -> bool {
        self.cons.iter().all(|c| lc(&c[0], val) * lc(&c[1], val) == lc(&c[2], val))
    }
    pub fn publics(&self, val: &[F]) -> Vec<F> {
        val[1..self.ni].to_vec()
    }
    /// the constraint system without the assignment
    pub fn same_shape(&self, o: &Sys<F>) -> bool {
        self.ni == o.ni && self.nv == o.nv && self.cons == o.cons
    }
    pub fn vars(&self, k: usize) -> BTreeSet<usize> {
        self.cons[k].iter().flat_map(|r| r.iter().map(|x| x.1)).filter(|v| *v != 0).collect()
    }
}
/// Witness variables that hold the given committed values in every honest run.
pub fn locate<F: PrimeField>(runs: &[(Vec<F>, Vec<F>)], ni: usize) -> Vec<Vec<usize>> {
    let k = runs[0].0.len();
    let nv = runs[0].1.len();
    (0..k).map(|i| (ni..nv).filter(|&v| runs.iter().all(|(sec, val)| val[v] == sec[i])).collect()).collect()
}
/// Variables with equal values in every honest run (not the constant ones).
pub fn classes<F: PrimeField>(vals: &[Vec<F>]) -> Vec<Vec<usize>> {
    let mut m: HashMap<Vec<F>, Vec<usize>> = HashMap::new();
    for v in 1..vals[0].len() {
        let key: Vec<F> = vals.iter().map(|a| a[v]).collect();
        if key.iter().all(|x| *x == key[0]) {
            continue;
        }
        m.entry(key).or_default().push(v);
    }
    let mut r: Vec<Vec<usize>> = m.into_values().filter(|c| c.len() > 1 && c.len() <= 8).collect();
    r.sort();
    r
}
/// Starting from a satisfying assignment, changes one variable (or a class of equal ones) and
/// propagates; every satisfying assignment reached is handed to `found`.
pub struct Search<'a, F: PrimeField> {
    pub sys: &'a Sys<F>,
    at: Vec<Vec<usize>>,
    first: Vec<usize>,
    vs: Vec<Vec<usize>>,
    pub tried: usize,
    pub limit: usize,
    /// variables changed by the last run
    pub touched: Vec<usize>,
}
impl<'a, F: PrimeField> Search<'a, F> {
    pub fn new(sys: &'a Sys<F>) -> Self {
        let mut at = vec![vec![]; sys.nv];
        let mut first = vec![usize::MAX; sys.nv];
        for k in 0..sys.cons.len() {
            for v in sys.vars(k) {
                at[v].push(k);
                first[v] = first[v].min(k);
            }
        }
        let vs = (0..sys.cons.len()).map(|k| sys.vars(k).into_iter().collect()).collect();
        Search { sys, at, first, vs, tried: 0, limit: 6000, touched: vec![] }
    }
    fn ev(&self, r: &Row<F>, val: &[F]) -> F {
        lc(r, val)
    }
    fn ok(&self, k: usize, val: &[F]) -> bool {
        let c = &self.sys.cons[k];
        self.ev(&c[0], val) * self.ev(&c[1], val) == self.ev(&c[2], val)
    }
    /// the value of u that satisfies constraint k, if u occurs in one side only
    fn solve(&self, k: usize, u: usize, val: &[F]) -> Option<F> {
        let c = &self.sys.cons[k];
        let co = |r: &Row<F>| r.iter().find(|x| x.1 == u).map(|x| x.0).unwrap_or(F::zero());
        let (ca, cb, cc) = (co(&c[0]), co(&c[1]), co(&c[2]));
        let (a, b, cv) = (self.ev(&c[0], val), self.ev(&c[1], val), self.ev(&c[2], val));
        if !ca.is_zero() && !cb.is_zero() {
            return None;
        }
        // linear in u: (ca*b + cb*a - cc) * du = cv - a*b
        let d = ca * b + cb * a - cc;
        if d.is_zero() {
            return None;
        }
        let e = cv - a * b;
        Some(if d == -F::one() {
            val[u] - e
        } else if d.is_one() {
            val[u] + e
        } else {
            val[u] + e * d.inverse().unwrap()
        })
    }
    /// strategy 0: newest variable, 1: oldest, 2: the one that disturbs the fewest constraints, 3: random
    pub fn run(&mut self, val: &mut Vec<F>, start: &[(usize, F)], strategy: usize, r: &mut StdRng) -> bool {
        self.tried += 1;
        let mut changed: HashSet<usize> = HashSet::new();
        let mut queue: BTreeSet<usize> = BTreeSet::new();
        for (v, x) in start {
            val[*v] = *x;
            changed.insert(*v);
            self.touched.push(*v);
            queue.extend(self.at[*v].iter());
        }
        let mut steps = 0;
        loop {
            let k = match queue.iter().next() {
                None => return true,
                Some(&k) => k,
            };
            queue.remove(&k);
            if self.ok(k, val) {
                continue;
            }
            steps += 1;
            if steps > self.limit {
                return false;
            }
            let cand: Vec<(usize, F)> =
                self.vs[k].iter().cloned().filter(|u| !changed.contains(u)).filter_map(|u| self.solve(k, u, val).map(|x| (u, x))).collect();
            if cand.is_empty() {
                return false;
            }
            let pick = match strategy {
                0 => cand.iter().max_by_key(|c| (self.first[c.0], c.0)).unwrap().clone(),
                1 => cand.iter().min_by_key(|c| (self.first[c.0], c.0)).unwrap().clone(),
                2 => {
                    let mut best = None;
                    for (u, x) in &cand {
                        let old = val[*u];
                        val[*u] = *x;
                        let bad = self.at[*u].iter().filter(|&&j| !self.ok(j, val)).count();
                        let hopeless = self.at[*u].iter().any(|&j| !self.ok(j, val) && self.vs[j].len() == 1);
                        val[*u] = old;
                        let key = (hopeless, bad, usize::MAX - self.first[*u]);
                        if best.as_ref().map(|(b, _)| key < *b).unwrap_or(true) {
                            best = Some((key, (*u, *x)));
                        }
                    }
                    best.unwrap().1
                }
                _ => cand[r.gen_range(0..cand.len())].clone(),
            };
            val[pick.0] = pick.1;
            changed.insert(pick.0);
            self.touched.push(pick.0);
            queue.extend(self.at[pick.0].iter());
        }
    }
    pub fn changes(&self, base: &[F], v: usize, r: &mut StdRng) -> Vec<F> {
        let x = base[v];
        let mut c = vec![x + F::one() + frand::<F, _>(r)];
        if x.is_zero() || x.is_one() {
            c.push(F::one() - x);
        } else {
            c.push(-x);
            c.push(F::zero());
        }
        c.retain(|y| *y != x);
        c
    }
    /// the changes to try: single variables and classes of equal ones
    pub fn plan(&self, base: &[F], cls: &[Vec<usize>], r: &mut StdRng) -> Vec<Vec<(usize, F)>> {
        let mut out = vec![];
        for v in 1..self.sys.nv {
            for x in self.changes(base, v, r) {
                out.push(vec![(v, x)]);
            }
        }
        for c in cls {
            for x in self.changes(base, c[0], r) {
                out.push(c.iter().map(|&v| (v, x)).collect());
            }
        }
        out
    }
}
/// Tries all changes with every strategy on several threads; returns at most `cap` satisfying
/// assignments that differ in what `view` keeps of them, and the number of attempts.
pub fn explore<F: PrimeField, K: Eq + std::hash::Hash + Send>(
    sys: &Sys<F>,
    cls: &[Vec<usize>],
    cap: usize,
    r: &mut StdRng,
    view: impl Fn(&[F]) -> K + Sync,
) -> (Vec<Vec<F>>, usize) {
    let base = &sys.val;
    let plan = Search::new(sys).plan(base, cls, r);
    let seed: u64 = r.gen();
    let strategies: &[usize] = if thorough() { &[0, 2, 1, 3, 3, 3] } else { &[0, 2, 1] };
    let threads = 8;
    let (plan, view) = (&plan, &view);
    let parts: Vec<(Vec<(usize, K, Vec<F>)>, usize)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                sc.spawn(move || {
                    let mut se = Search::new(sys);
                    let mut val = base.clone();
                    let mut res: Vec<(usize, K, Vec<F>)> = vec![];
                    let mut i = t;
                    while i < plan.len() {
                        let mut r: StdRng = rand::SeedableRng::seed_from_u64(seed ^ i as u64);
                        for &s in strategies {
                            if se.run(&mut val, &plan[i], s, &mut r) && res.len() < cap {
                                let k = view(&val);
                                if !res.iter().any(|x| x.1 == k) {
                                    res.push((i, k, val.clone()));
                                }
                            }
                            for v in se.touched.drain(..) {
                                val[v] = base[v];
                            }
                        }
                        i += threads;
                    }
                    (res, se.tried)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let tried = parts.iter().map(|x| x.1).sum();
    let mut all: Vec<(usize, K, Vec<F>)> = parts.into_iter().flat_map(|x| x.0).collect();
    all.sort_by_key(|x| x.0);
    let mut seen = HashSet::new();
    let mut out = vec![];
    for (_, k, v) in all {
        if out.len() < cap && seen.insert(k) {
            out.push(v);
        }
    }
    (out, tried)
}
/// Writes constraint systems over small fields for the model checker, next to the trace.
pub struct Circs(std::fs::File);
impl Circs {
    pub fn new() -> Circs {
        Circs(std::fs::File::create(format!("{}.circ", std::env::var("OUT").unwrap())).unwrap())
    }
    pub fn put<F: PrimeField>(&mut self, name: &str, kind: &'static str, s_: &Sys<F>, extra: Vec<(&'static str, J)>) {
        let int = |x: F| J::N(x.into_repr().as_ref()[0] as i64);
        let mut f = vec![
            ("name", s(name)),
            ("kind", s(kind)),
            ("p", J::N(F::Params::MODULUS_U64() as i64)),
            ("ni", n(s_.ni)),
            ("nv", n(s_.nv)),
            (
                "cons",
                J::A(
                    s_.cons
                        .iter()
                        .map(|c| J::A(c.iter().map(|r| J::A(r.iter().map(|(c, v)| J::A(vec![int(*c), n(*v)])).collect())).collect()))
                        .collect(),
                ),
            ),
        ];
        f.extend(extra);
        let mut o = String::new();
        J::O(f).write(&mut o);
        writeln!(self.0, "{}", o).unwrap();
    }
}
pub trait SmallMod {
    #[allow(non_snake_case)]
    fn MODULUS_U64() -> u64;
}
impl<T: ark_ff::FpParameters> SmallMod for T {
    fn MODULUS_U64() -> u64 {
        use ark_ff::fields::FftParameters;
        let _ = <T as FftParameters>::TWO_ADICITY;
        T::MODULUS.as_ref()[0]
    }
}
pub fn fi<F: PrimeField>(v: &[F]) -> J {
    J::A(v.iter().map(|x| J::N(x.into_repr().as_ref()[0] as i64)).collect())
}
pub fn fhs<F: PrimeField>(v: &[F]) -> J {
    J::A(v.iter().map(|x| s(fh(*x))).collect())
}

/// One circuit family with fixed constants.  `runs`: committed values and the system generated for
/// them.  `nsec`: how many of the committed values are kept whole; the others are bits, in groups of
/// `group`.  `keep`: how many committed values the relation of recorded assignments takes (from the
/// front).
pub struct Study<F: PrimeField> {
    pub name: String,
    pub kind: &'static str,
    pub common: Vec<(&'static str, J)>,
    pub setup: Vec<Option<Sys<F>>>,
    pub runs: Vec<(Vec<F>, Option<Sys<F>>)>,
    pub nsec: usize,
    pub group: usize,
    pub keep: usize,
    pub dump: Option<(&'static str, Vec<(&'static str, J)>)>,
    pub deviate: bool,
    /// further assignments of false claims
    pub claims: Vec<(Vec<F>, Option<Sys<F>>)>,
}
impl<F: PrimeField> Study<F> {
    pub fn record(self, o: &mut Out, circ: &mut Circs, r: &mut StdRng) -> usize {
        let mut ev = vec![];
        let p = ("p", s(modulus::<F>()));
        let shape: Option<&Sys<F>> = self.setup.iter().flatten().next();
        let all_setup = self.setup.iter().all(|x| x.is_some());
        for (sec, y) in &self.runs {
            let (ok, sat, same, pb) = match (y, shape) {
                (Some(y), Some(z)) => (
                    all_setup,
                    y.satisfied(&y.val),
                    y.same_shape(z) && self.setup.iter().flatten().all(|w| w.same_shape(z)),
                    y.publics(&y.val),
                ),
                _ => (false, false, false, vec![]),
            };
            let mut e = vec![("f", s("honest")), ("kind", s(self.kind)), p.clone()];
            e.extend(self.common.clone());
            e.extend(vec![("sec", fhs(&sec[..self.keep])), ("pub", fhs(&pb)), ("ok", J::B(ok)), ("sat", J::B(sat)), ("same", J::B(same))]);
            ev.push(J::O(e));
        }
        for (sec, y) in &self.claims {
            if let Some(y) = y {
                let mut e = vec![("f", s("assign")), ("kind", s(self.kind)), p.clone()];
                e.extend(self.common.clone());
                e.extend(vec![
                    ("sat", J::B(y.satisfied(&y.val))),
                    ("choices", J::A(vec![fhs(&sec[..self.keep])])),
                    ("pub", fhs(&y.publics(&y.val))),
                ]);
                ev.push(J::O(e));
            }
        }
        let mut tried = 0;
        let good: Vec<(Vec<F>, Vec<F>)> = self.runs.iter().filter_map(|(a, y)| y.as_ref().map(|y| (a.clone(), y.val.clone()))).collect();
        if let Some(sys) = self.runs.iter().rev().filter_map(|x| x.1.as_ref()).next() {
            if good.iter().all(|x| x.1.len() == sys.nv) {
                let cand = locate(&good, sys.ni);
                if let Some((kind, extra)) = &self.dump {
                    let mut x = vec![("sec", J::A(cand[..self.nsec].iter().map(|x| ns(x)).collect()))];
                    x.push((
                        "bits",
                        J::A(
                            cand[if self.group == 0 { cand.len() } else { self.nsec }..]
                                .chunks(self.group.max(1))
                                .map(|g| J::A(g.iter().enumerate().map(|(i, c)| J::A(vec![ns(c), n(i)])).collect()))
                                .collect(),
                        ),
                    ));
                    x.extend(extra.clone());
                    circ.put(&self.name, kind, sys, x);
                }
                let cand = &cand[..self.keep];
                if self.deviate && cand.iter().all(|x| !x.is_empty()) && sys.satisfied(&sys.val) {
                    let cls = classes(&good.iter().map(|x| x.1.clone()).collect::<Vec<_>>());
                    let top = cand.iter().map(|x| x.len()).max().unwrap_or(1).min(4);
                    let view = |val: &[F]| -> (Vec<Vec<F>>, Vec<F>) {
                        ((0..top).map(|t| cand.iter().map(|x| val[x[t.min(x.len() - 1)]]).collect()).collect(), sys.publics(val))
                    };
                    let (found, tr) = explore(sys, &cls, 300, r, view);
                    tried = tr;
                    for val in &found {
                        let (choices, pb) = view(val);
                        let mut e = vec![("f", s("assign")), ("kind", s(self.kind)), p.clone()];
                        e.extend(self.common.clone());
                        e.extend(vec![
                            ("sat", J::B(sys.satisfied(val))),
                            ("choices", J::A(choices.iter().map(|x| fhs(x)).collect())),
                            ("pub", fhs(&pb)),
                        ]);
                        ev.push(J::O(e));
                    }
                }
            }
        }
        o.session(&self.name, ev);
        tried
    }
}
