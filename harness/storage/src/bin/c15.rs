//! C15: the sealed file, block by block, and the identifiers returned.
#[path = "../../../common/seal_util.rs"]
mod seal_util;
#[path = "../../../common/util.rs"]
mod util;
use proof_of_storage::proof_of_storage::prover::*;
use rand::{rngs::StdRng, Rng};
use seal_util::*;
use util::*;

fn one(k: usize, c: &Conf, r: &mut StdRng) -> Sessions {
    let d = dir();
    let (org, sealed) = (format!("{}/origin", d), format!("{}/sealed", d));
    let data = c.bytes(r);
    std::fs::write(&org, &data).unwrap();
    let p = c.params();
    let key = c.key();
    let v = iv(r, k);
    // padded by hand: padding is another property
    let mut padded = vec![];
    for u in data.chunks(c.pl - 1) {
        padded.extend_from_slice(u);
        padded.push(0);
    }
    // a unit that the hash of the vector takes to zero modulo the key
    if c.small_key && c.cs == 0 {
        if let Some(u) = zero_sum(&key, &v, c) {
            padded[..c.pl].copy_from_slice(&u);
        }
    }
    std::fs::write(&sealed, &padded).unwrap();
    let res = catch(|| seal(&p, &sealed, &key, &v));
    let after = std::fs::read(&sealed).unwrap();
    let mut f = vec![("f", s("begin")), ("iv", hexj(&v))];
    f.extend(c.fields());
    let mut e = vec![J::O(f)];
    let (a, b) = (units(&padded, c), units(&after, c));
    let ids = res.as_ref().map(|x| x.0.clone()).unwrap_or_default();
    if res.is_some() {
        for i in 0..c.nb.min(b.len()) {
            e.push(J::O(vec![("f", s("block")), ("idx", n(i)), ("plain", uj(&a[i])), ("sealed", uj(&b[i])), ("id", s(ids.get(i).map(|x| hex(x)).unwrap_or("none".into())))]));
        }
    }
    e.push(J::O(vec![("f", s("end")), ("ok", J::B(res.is_some())), ("ids", n(ids.len())), ("extra", n(after.len().max(padded.len()) - padded.len()))]));
    vec![(c.name(), e)]
}
fn main() {
    let mut o = Out::new();
    let mut r = rng(15);
    let all = confs(q(2100, 5000));
    for (k, c) in all.iter().enumerate() {
        o.note(c.name());
        o.sessions(one(k, c, &mut r));
    }
    o.note("several files at the same time");
    let light: Vec<&Conf> = all.iter().filter(|c| c.nb * c.nu <= 60 && c.rounds * c.vr <= 9).collect();
    for b in 0..q(6, 30) {
        o.together(8, |i| {
            let mut r = rng(1500 + 100 * b + i as u64);
            let k = r.gen_range(0..light.len());
            let k = if b % 2 == 0 { b as usize * 7 % light.len() } else { k };
            one(k, light[k], &mut r)
        });
    }
    o.done();
}
/// first unit u with u + hash(vector) = key, when it is a valid padded unit
fn zero_sum(key: &rug::Integer, v: &[u8], c: &Conf) -> Option<Vec<u8>> {
    use rug::integer::Order;
    let h = rug::Integer::from_digits(blake3::hash(v).as_bytes(), Order::Lsf);
    let u = rug::Integer::from(key - h);
    let mut b = u.to_digits::<u8>(Order::Lsf);
    if b.len() > c.pl - 1 {
        return None;
    }
    b.resize(c.pl, 0);
    Some(b)
}
