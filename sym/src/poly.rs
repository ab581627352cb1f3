//! Sparse multivariate polynomials over GF(p): used to simplify a query before the solver sees it.
use num_integer::Integer;
use num_traits::{One, Zero};
use real::BigInt as Z;
use std::collections::{BTreeMap, BTreeSet};

pub type Mono = Vec<(u32, u32)>; // (variable, exponent), sorted by variable
#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Poly(pub BTreeMap<Mono, Z>);

pub const CAP: usize = 6000;
/// Raised (as None) when a polynomial grows past CAP terms.
pub type Big<T> = Option<T>;

fn mmul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i].0 == b[j].0 {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        } else if a[i].0 < b[j].0 {
            r.push(a[i]);
            i += 1;
        } else {
            r.push(b[j]);
            j += 1;
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}
pub fn mexp(m: &Mono, v: u32) -> u32 {
    m.iter().find(|x| x.0 == v).map_or(0, |x| x.1)
}
fn mdrop(m: &Mono, v: u32, n: u32) -> Mono {
    m.iter().filter_map(|&(w, e)| if w == v { if e > n { Some((w, e - n)) } else { None } } else { Some((w, e)) }).collect()
}

impl Poly {
    pub fn zero() -> Poly {
        Poly(BTreeMap::new())
    }
    pub fn konst(z: &Z, p: &Z) -> Poly {
        let mut m = BTreeMap::new();
        let z = z.mod_floor(p);
        if !z.is_zero() {
            m.insert(vec![], z);
        }
        Poly(m)
    }
    pub fn var(v: u32) -> Poly {
        let mut m = BTreeMap::new();
        m.insert(vec![(v, 1)], Z::one());
        Poly(m)
    }
    pub fn as_const(&self) -> Option<Z> {
        if self.0.is_empty() {
            return Some(Z::zero());
        }
        if self.0.len() == 1 {
            let (m, c) = self.0.iter().next().unwrap();
            if m.is_empty() {
                return Some(c.clone());
            }
        }
        None
    }
    /// single variable times a constant
    pub fn as_var(&self) -> Option<u32> {
        if self.0.len() == 1 {
            let m = self.0.keys().next().unwrap();
            if m.len() == 1 {
                return Some(m[0].0);
            }
        }
        None
    }
    pub fn vars(&self, out: &mut BTreeSet<u32>) {
        for m in self.0.keys() {
            for (v, _) in m {
                out.insert(*v);
            }
        }
    }
    pub fn has(&self, v: u32) -> bool {
        self.0.keys().any(|m| m.iter().any(|x| x.0 == v))
    }
    pub fn deg(&self, v: u32) -> u32 {
        self.0.keys().map(|m| mexp(m, v)).max().unwrap_or(0)
    }
    fn put(&mut self, m: Mono, c: Z, p: &Z) {
        use std::collections::btree_map::Entry::*;
        match self.0.entry(m) {
            Vacant(e) => {
                if !c.is_zero() {
                    e.insert(c);
                }
            }
            Occupied(mut e) => {
                let mut s = e.get() + c;
                if &s >= p {
                    s -= p;
                }
                if s.is_zero() {
                    e.remove();
                } else {
                    *e.get_mut() = s;
                }
            }
        }
    }
    pub fn add(&self, o: &Poly, p: &Z) -> Poly {
        let (mut r, s) = if self.0.len() >= o.0.len() { (self.clone(), o) } else { (o.clone(), self) };
        for (m, c) in &s.0 {
            r.put(m.clone(), c.clone(), p);
        }
        r
    }
    pub fn neg(&self, p: &Z) -> Poly {
        Poly(self.0.iter().map(|(m, c)| (m.clone(), p - c)).collect())
    }
    pub fn sub(&self, o: &Poly, p: &Z) -> Poly {
        self.add(&o.neg(p), p)
    }
    pub fn scale(&self, k: &Z, p: &Z) -> Poly {
        let k = k.mod_floor(p);
        if k.is_zero() {
            return Poly::zero();
        }
        Poly(self.0.iter().map(|(m, c)| (m.clone(), (c * &k).mod_floor(p))).collect())
    }
    pub fn mul(&self, o: &Poly, p: &Z) -> Big<Poly> {
        if self.0.len() * o.0.len() > 400_000 {
            return None;
        }
        let mut acc: BTreeMap<Mono, Z> = BTreeMap::new();
        for (m, c) in &self.0 {
            for (n, d) in &o.0 {
                *acc.entry(mmul(m, n)).or_insert_with(Z::zero) += c * d;
            }
        }
        if p.bits() <= 6 {
            // as functions on a tiny field: x^p = x
            let n = p.to_u32_digits().1[0] - 1;
            let mut red: BTreeMap<Mono, Z> = BTreeMap::new();
            for (m, c) in acc {
                let m = m.into_iter().map(|(v, e)| (v, (e - 1) % n + 1)).collect();
                *red.entry(m).or_insert_with(Z::zero) += c;
            }
            acc = red;
        }
        acc.retain(|_, c| {
            *c = c.mod_floor(p);
            !c.is_zero()
        });
        if acc.len() > CAP {
            return None;
        }
        Some(Poly(acc))
    }
    pub fn pow(&self, n: u32, p: &Z) -> Big<Poly> {
        let mut r = Poly::konst(&Z::one(), p);
        for _ in 0..n {
            r = r.mul(self, p)?;
        }
        Some(r)
    }
    /// Coefficients with respect to v.
    pub fn coeffs(&self, v: u32) -> Vec<Poly> {
        let mut r = vec![Poly::zero(); self.deg(v) as usize + 1];
        for (m, c) in &self.0 {
            let e = mexp(m, v);
            r[e as usize].0.insert(mdrop(m, v, e), c.clone());
        }
        r
    }
    /// Scale so that the first coefficient is one.
    pub fn monic(&self, p: &Z) -> Poly {
        match self.0.values().next_back() {
            None => self.clone(),
            Some(c) if c.is_one() => self.clone(),
            Some(c) => self.scale(&c.modpow(&(p - 2), p), p),
        }
    }
    /// Divide out the variables for which `nz` holds, as often as possible.
    pub fn strip(&self, nz: &BTreeSet<u32>) -> Poly {
        let mut min: Option<BTreeMap<u32, u32>> = None;
        for m in self.0.keys() {
            let here: BTreeMap<u32, u32> = m.iter().filter(|x| nz.contains(&x.0)).copied().collect();
            min = Some(match min {
                None => here,
                Some(a) => a.into_iter().filter_map(|(v, e)| here.get(&v).map(|f| (v, e.min(*f)))).collect(),
            });
        }
        let min = match min {
            Some(m) if !m.is_empty() => m,
            _ => return self.clone(),
        };
        Poly(
            self.0
                .iter()
                .map(|(m, c)| {
                    let mut m = m.clone();
                    for (v, e) in &min {
                        m = mdrop(&m, *v, *e);
                    }
                    (m, c.clone())
                })
                .collect(),
        )
    }
    /// Exact quotient by `d`, if there is one.
    pub fn div_exact(&self, d: &Poly, p: &Z) -> Option<Poly> {
        // lexicographic leading monomials via BTreeMap order on reversed comparison is not a monomial
        // order, so use one explicitly
        let key = |m: &Mono| -> Vec<(std::cmp::Reverse<u32>, u32)> { m.iter().map(|x| (std::cmp::Reverse(x.0), x.1)).collect() };
        let lead = |q: &Poly| -> Option<(Mono, Z)> {
            q.0.iter().max_by(|a, b| key(a.0).cmp(&key(b.0))).map(|(m, c)| (m.clone(), c.clone()))
        };
        let (dm, dc) = lead(d)?;
        let di = dc.modpow(&(p - 2), p);
        let mut r = self.clone();
        let mut q = Poly::zero();
        let mut n = 0;
        while let Some((m, c)) = lead(&r) {
            n += 1;
            if n > 4000 {
                return None;
            }
            let mut t = m.clone();
            for (v, e) in &dm {
                if mexp(&t, *v) < *e {
                    return None;
                }
                t = mdrop(&t, *v, *e);
            }
            let k = (c * &di).mod_floor(p);
            for (n, e) in &d.0 {
                let s = (p - (e * &k).mod_floor(p)).mod_floor(p);
                r.put(mmul(n, &t), s, p);
            }
            q.put(t, k, p);
        }
        Some(q)
    }
    /// Replace v^n by `rest` until no v^n is left.
    pub fn rewrite(self, v: u32, n: u32, rest: &Poly, p: &Z) -> Big<Poly> {
        if self.deg(v) < n {
            return Some(self);
        }
        let mut cs = self.coeffs(v);
        // from the top: c_i v^i = c_i rest v^(i-n), deg_v(rest) < n
        let rc = rest.coeffs(v);
        for i in (n as usize..cs.len()).rev() {
            let c = std::mem::replace(&mut cs[i], Poly::zero());
            if c.0.is_empty() {
                continue;
            }
            for (j, r) in rc.iter().enumerate() {
                if !r.0.is_empty() {
                    let t = c.mul(r, p)?;
                    let k = i - n as usize + j;
                    cs[k] = cs[k].add(&t, p);
                }
            }
        }
        let mut out = Poly::zero();
        for (i, c) in cs.into_iter().enumerate().take(n as usize) {
            for (m, k) in c.0 {
                out.put(if i == 0 { m } else { mmul(&m, &vec![(v, i as u32)]) }, k, p);
            }
        }
        if out.0.len() > CAP {
            return None;
        }
        Some(out)
    }
}

#[derive(Clone, Debug)]
pub struct Rule {
    pub v: u32,
    pub n: u32,
    pub rest: Poly,
}
/// Equations of one prime in solved form.
#[derive(Clone, Default)]
pub struct Sys {
    pub rules: Vec<Rule>,
    /// equations not in solved form
    pub eqs: Vec<Poly>,
    /// inverse variables: w * d = 1, in order of creation
    pub invs: Vec<(u32, Poly)>,
    pub nz: BTreeSet<u32>,
    pub nzp: Vec<Poly>,
    pub off: bool,
    pub gen: u64,
}
impl Sys {
    pub fn reduce(&self, q: Poly, p: &Z) -> Big<Poly> {
        let mut q = q;
        loop {
            let mut ch = false;
            for r in &self.rules {
                if q.deg(r.v) >= r.n {
                    q = q.rewrite(r.v, r.n, &r.rest, p)?;
                    ch = true;
                }
            }
            if !ch {
                return Some(q);
            }
        }
    }
    /// Equivalent of q = 0 without inverse variables, without nonzero factors.
    pub fn atom(&self, q: Poly, p: &Z) -> Big<Poly> {
        let mut q = self.reduce(q, p)?;
        for (w, d) in self.invs.iter().rev() {
            let k = q.deg(*w);
            if k == 0 {
                continue;
            }
            let cs = q.coeffs(*w);
            // Horner in d: sum c_i d^(k-i)
            let mut acc = Poly::zero();
            for c in cs.iter() {
                acc = self.reduce(acc.mul(d, p)?, p)?;
                acc = acc.add(c, p);
            }
            q = self.reduce(acc, p)?;
        }
        q = q.strip(&self.nz);
        for d in &self.nzp {
            if q.0.len() > 1 && q.0.len() <= 300 && d.0.len() <= q.0.len() {
                while let Some(t) = q.div_exact(d, p) {
                    if q.as_const().is_some() {
                        break;
                    }
                    q = t;
                }
            }
        }
        Some(q.monic(p))
    }
    fn reaches(&self, from: &BTreeSet<u32>, to: u32) -> bool {
        let mut seen = from.clone();
        let mut st: Vec<u32> = from.iter().copied().collect();
        while let Some(x) = st.pop() {
            if x == to {
                return true;
            }
            for r in &self.rules {
                if r.v == x {
                    let mut s = BTreeSet::new();
                    r.rest.vars(&mut s);
                    s.remove(&x);
                    for y in s {
                        if seen.insert(y) {
                            st.push(y);
                        }
                    }
                }
            }
        }
        false
    }
    /// Assert q = 0.
    pub fn assert_zero(&mut self, q: Poly, p: &Z) -> Big<()> {
        self.gen += 1;
        let mut todo = vec![q];
        let mut steps = 0;
        while let Some(q) = todo.pop() {
            steps += 1;
            if steps > 200 {
                return None;
            }
            let q = self.atom(q, p)?;
            if q.0.is_empty() {
                continue;
            }
            if q.as_const().is_some() {
                self.eqs.push(q);
                continue;
            }
            // pure powers alone of highest degree in their variable
            let mut best: Option<(u32, u32, Z)> = None;
            for (m, c) in &q.0 {
                if m.len() != 1 {
                    continue;
                }
                let (v, n) = m[0];
                if self.invs.iter().any(|i| i.0 == v) {
                    continue;
                }
                if q.0.keys().any(|k| k != m && mexp(k, v) >= n) {
                    continue;
                }
                if let Some(b) = &best {
                    // least power first, then the youngest variable
                    if (n, std::cmp::Reverse(v)) >= (b.1, std::cmp::Reverse(b.0)) {
                        continue;
                    }
                }
                let mut vs = BTreeSet::new();
                q.vars(&mut vs);
                vs.remove(&v);
                // inverse variables depend on what they invert
                if self.reaches(&vs, v) {
                    continue;
                }
                best = Some((v, n, c.clone()));
            }
            match best {
                None => {
                    if !self.eqs.contains(&q) {
                        self.eqs.push(q)
                    }
                }
                Some((v, n, c)) => {
                    let mut rest = q.clone();
                    rest.0.remove(&vec![(v, n)]);
                    let rest = rest.scale(&(p - c.modpow(&(p - 2), p)), p);
                    // old rules with the same head become equations again
                    let mut keep = vec![];
                    for r in std::mem::take(&mut self.rules) {
                        if r.v == v {
                            let mut t = Poly::zero();
                            t.0.insert(vec![(v, r.n)], Z::one());
                            todo.push(t.sub(&r.rest, p));
                        } else {
                            keep.push(r)
                        }
                    }
                    self.rules = keep;
                    if n == 1 && self.nz.remove(&v) {
                        self.note_nz(rest.clone());
                    }
                    self.rules.push(Rule { v, n, rest });
                    // keep right-hand sides reduced
                    for i in 0..self.rules.len() {
                        let r = self.rules[i].rest.clone();
                        self.rules[i].rest = self.reduce(r, p)?;
                    }
                    for e in std::mem::take(&mut self.eqs) {
                        todo.push(e);
                    }
                    for i in 0..self.invs.len() {
                        let d = self.invs[i].1.clone();
                        self.invs[i].1 = self.reduce(d, p)?;
                    }
                    let nzp: Vec<Poly> = std::mem::take(&mut self.nzp);
                    for d in nzp {
                        let d = self.reduce(d, p)?;
                        self.note_nz(d);
                    }
                }
            }
        }
        Some(())
    }
    pub fn note_nz(&mut self, d: Poly) {
        if let Some(c) = d.as_const() {
            if c.is_zero() {
                self.eqs.push(Poly(std::iter::once((vec![], Z::one())).collect()));
            }
            return;
        }
        match d.as_var() {
            Some(v) => {
                self.nz.insert(v);
            }
            None => {
                if !self.nzp.contains(&d) {
                    self.nzp.push(d)
                }
            }
        }
    }
}

// ------------------------------------------------------------------ concrete witnesses
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn below(&mut self, p: &Z) -> Z {
        let mut z = Z::zero();
        for _ in 0..p.bits() / 64 + 2 {
            z = (z << 64) + Z::from(self.next());
        }
        z.mod_floor(p)
    }
}
type Uni = Vec<Z>;
fn utrim(a: &mut Uni) {
    while a.last().map_or(false, |c| c.is_zero()) {
        a.pop();
    }
}
fn umod(mut a: Uni, f: &Uni, p: &Z) -> Uni {
    // f monic
    utrim(&mut a);
    while a.len() >= f.len() {
        let c = a.pop().unwrap();
        let s = a.len() + 1 - f.len();
        for i in 0..f.len() - 1 {
            a[s + i] = (&a[s + i] - &c * &f[i]).mod_floor(p);
        }
        utrim(&mut a);
    }
    a
}
fn umul(a: &Uni, b: &Uni, f: &Uni, p: &Z) -> Uni {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut o = vec![Z::zero(); a.len() + b.len() - 1];
    for i in 0..a.len() {
        for j in 0..b.len() {
            o[i + j] += &a[i] * &b[j];
        }
    }
    for c in o.iter_mut() {
        *c = c.mod_floor(p);
    }
    umod(o, f, p)
}
fn umonic(mut a: Uni, p: &Z) -> Uni {
    utrim(&mut a);
    if let Some(c) = a.last() {
        let i = c.modpow(&(p - 2), p);
        for x in a.iter_mut() {
            *x = (&*x * &i).mod_floor(p);
        }
    }
    a
}
/// Montgomery arithmetic on fixed limbs, for long powers of univariate polynomials.
const NL: usize = 10;
type L = [u64; NL];
struct Mont {
    n: usize,
    p: L,
    inv: u64,
    r2: L,
}
impl Mont {
    fn new(p: &Z) -> Option<Mont> {
        let d = p.to_u64_digits().1;
        let n = d.len();
        if n > NL || d[0] & 1 == 0 {
            return None;
        }
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(d[0].wrapping_mul(inv)));
        }
        let mut m = Mont { n, p: [0; NL], inv: inv.wrapping_neg(), r2: [0; NL] };
        m.p[..n].copy_from_slice(&d);
        let r: Z = (Z::one() << (128 * n)).mod_floor(p);
        m.r2 = m.limbs(&r);
        Some(m)
    }
    fn limbs(&self, z: &Z) -> L {
        let mut o = [0; NL];
        for (i, d) in z.to_u64_digits().1.into_iter().enumerate() {
            o[i] = d;
        }
        o
    }
    fn enc(&self, z: &Z) -> L {
        self.mul(&self.limbs(z), &self.r2)
    }
    fn dec(&self, a: &L) -> Z {
        let mut one = [0; NL];
        one[0] = 1;
        let v = self.mul(a, &one);
        let mut z = Z::zero();
        for i in (0..self.n).rev() {
            z = (z << 64) + Z::from(v[i]);
        }
        z
    }
    fn geq(&self, a: &L) -> bool {
        for i in (0..self.n).rev() {
            if a[i] != self.p[i] {
                return a[i] > self.p[i];
            }
        }
        true
    }
    fn subp(&self, a: &mut L) {
        let mut b = 0u64;
        for i in 0..self.n {
            let (x, c) = a[i].overflowing_sub(self.p[i]);
            let (x, d) = x.overflowing_sub(b);
            a[i] = x;
            b = (c | d) as u64;
        }
    }
    fn add(&self, a: &L, b: &L) -> L {
        let mut o = [0; NL];
        let mut c = 0u128;
        for i in 0..self.n {
            c += a[i] as u128 + b[i] as u128;
            o[i] = c as u64;
            c >>= 64;
        }
        if c != 0 || self.geq(&o) {
            self.subp(&mut o);
        }
        o
    }
    fn sub(&self, a: &L, b: &L) -> L {
        let mut o = [0; NL];
        let mut bw = 0u64;
        for i in 0..self.n {
            let (x, c) = a[i].overflowing_sub(b[i]);
            let (x, d) = x.overflowing_sub(bw);
            o[i] = x;
            bw = (c | d) as u64;
        }
        if bw != 0 {
            let mut c = 0u128;
            for i in 0..self.n {
                c += o[i] as u128 + self.p[i] as u128;
                o[i] = c as u64;
                c >>= 64;
            }
        }
        o
    }
    fn mul(&self, a: &L, b: &L) -> L {
        let n = self.n;
        let mut t = [0u64; NL + 2];
        for i in 0..n {
            let mut c = 0u128;
            for j in 0..n {
                c += t[j] as u128 + a[i] as u128 * b[j] as u128;
                t[j] = c as u64;
                c >>= 64;
            }
            c += t[n] as u128;
            t[n] = c as u64;
            t[n + 1] = (c >> 64) as u64;
            let m = t[0].wrapping_mul(self.inv);
            let mut c = (t[0] as u128 + m as u128 * self.p[0] as u128) >> 64;
            for j in 1..n {
                c += t[j] as u128 + m as u128 * self.p[j] as u128;
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += t[n] as u128;
            t[n - 1] = c as u64;
            t[n] = t[n + 1] + (c >> 64) as u64;
        }
        let mut o = [0; NL];
        o[..n].copy_from_slice(&t[..n]);
        if t[n] != 0 || self.geq(&o) {
            self.subp(&mut o);
        }
        o
    }
    /// product modulo the monic polynomial f
    fn pmul(&self, a: &[L], b: &[L], f: &[L]) -> Vec<L> {
        if a.is_empty() || b.is_empty() {
            return vec![];
        }
        let mut o = vec![[0u64; NL]; a.len() + b.len() - 1];
        for i in 0..a.len() {
            for j in 0..b.len() {
                o[i + j] = self.add(&o[i + j], &self.mul(&a[i], &b[j]));
            }
        }
        let d = f.len() - 1;
        for i in (d..o.len()).rev() {
            let c = o[i];
            if c.iter().all(|x| *x == 0) {
                continue;
            }
            for j in 0..d {
                o[i - d + j] = self.sub(&o[i - d + j], &self.mul(&c, &f[j]));
            }
        }
        o.truncate(d);
        while o.last().is_some_and(|l| l.iter().all(|x| *x == 0)) {
            o.pop();
        }
        o
    }
}
/// b^e modulo the monic polynomial f
fn upow(b: &Uni, e: &Z, f: &Uni, p: &Z) -> Uni {
    if let (Some(m), true) = (Mont::new(p), f.len() > 1) {
        let en = |u: &Uni| u.iter().map(|z| m.enc(&z.mod_floor(p))).collect::<Vec<_>>();
        let (bm, fm) = (en(b), en(f));
        let mut r = vec![m.enc(&Z::one())];
        for i in (0..e.bits()).rev() {
            r = m.pmul(&r, &r, &fm);
            if ((e >> i) & Z::one()).is_one() {
                r = m.pmul(&r, &bm, &fm);
            }
        }
        let mut r: Uni = r.iter().map(|l| m.dec(l)).collect();
        utrim(&mut r);
        return umod(r, f, p);
    }
    let mut r: Uni = vec![Z::one()];
    for i in (0..e.bits()).rev() {
        r = umul(&r, &r, f, p);
        if ((e >> i) & Z::one()).is_one() {
            r = umul(&r, b, f, p);
        }
    }
    umod(r, f, p)
}
fn ugcd(mut a: Uni, mut b: Uni, p: &Z) -> Uni {
    a = umonic(a, p);
    b = umonic(b, p);
    while !b.is_empty() {
        let r = if a.len() >= b.len() { umod(a, &b, p) } else { a };
        a = b;
        b = umonic(r, p);
    }
    a
}
/// A root of the univariate polynomial (coefficients low to high), chosen at random among several.
pub fn root(f: &[Z], p: &Z, rng: &mut Rng) -> Option<Z> {
    let f = umonic(f.to_vec(), p);
    if f.is_empty() {
        return Some(rng.below(p));
    }
    if f.len() == 1 {
        return None;
    }
    if f.len() == 2 {
        return Some((p - &f[0]).mod_floor(p));
    }
    let mut h = upow(&vec![Z::zero(), Z::one()], p, &f, p);
    h.resize(h.len().max(2), Z::zero());
    h[1] = (&h[1] - Z::one()).mod_floor(p);
    let mut g = ugcd(f, h, p);
    let half: Z = (p - Z::one()) / Z::from(2);
    for _ in 0..400 {
        if g.len() < 2 {
            return None;
        }
        if g.len() == 2 {
            return Some((p - &g[0]).mod_floor(p));
        }
        let t = vec![rng.below(p), Z::one()];
        let mut h = upow(&t, &half, &g, p);
        h.resize(h.len().max(1), Z::zero());
        h[0] = (&h[0] - Z::one()).mod_floor(p);
        let d = ugcd(g.clone(), h, p);
        if d.len() > 1 && d.len() < g.len() {
            if rng.next() & 1 == 0 {
                g = d
            } else {
                // cofactor: its roots are the remaining ones; find by dividing
                let mut a = g.clone();
                let mut q = vec![Z::zero(); g.len() - d.len() + 1];
                while a.len() >= d.len() {
                    let c = a.last().unwrap().clone();
                    let s = a.len() - d.len();
                    for i in 0..d.len() {
                        a[s + i] = (&a[s + i] - &c * &d[i]).mod_floor(p);
                    }
                    q[s] = c;
                    utrim(&mut a);
                }
                g = umonic(q, p);
            }
        }
    }
    None
}
/// All roots of the univariate polynomial (coefficients low to high); None if splitting failed.
pub fn roots(f: &[Z], p: &Z) -> Option<Vec<Z>> {
    let f = umonic(f.to_vec(), p);
    if f.len() < 2 {
        return if f.is_empty() { None } else { Some(vec![]) };
    }
    let mut h = upow(&vec![Z::zero(), Z::one()], p, &f, p);
    h.resize(h.len().max(2), Z::zero());
    h[1] = (&h[1] - Z::one()).mod_floor(p);
    let g = ugcd(f, h, p);
    let mut out = BTreeSet::new();
    let mut rng = Rng(0x51ed_2701);
    let n = g.len().saturating_sub(1);
    for _ in 0..200 * (n + 1) {
        if out.len() == n {
            return Some(out.into_iter().collect());
        }
        out.insert(root(&g, p, &mut rng)?);
    }
    None
}
pub type Asg = std::collections::HashMap<u32, Z>;
impl Poly {
    /// Value under an assignment; None if a variable has none.
    pub fn eval(&self, a: &Asg, p: &Z) -> Option<Z> {
        let mut s = Z::zero();
        for (m, c) in &self.0 {
            let mut t = c.clone();
            for (v, e) in m {
                let x = a.get(v)?;
                for _ in 0..*e {
                    t = (&t * x).mod_floor(p);
                }
            }
            s += t;
        }
        Some(s.mod_floor(p))
    }
}
impl Sys {
    /// Random solution of the equations (other conditions are for the caller to test).
    pub fn sample(&self, vars: &BTreeSet<u32>, p: &Z, rng: &mut Rng) -> Option<Asg> {
        // implicit definitions: variable -> polynomial to vanish
        let mut defs: Vec<(u32, Poly)> = vec![];
        let mut heads: BTreeSet<u32> = BTreeSet::new();
        for r in &self.rules {
            let mut t = Poly::zero();
            t.0.insert(vec![(r.v, r.n)], Z::one());
            defs.push((r.v, t.sub(&r.rest, p)));
            heads.insert(r.v);
        }
        let mut extra = self.clone();
        for e in &self.eqs {
            if e.as_const().is_some() {
                return None;
            }
            let mut vs = BTreeSet::new();
            e.vars(&mut vs);
            let mut best: Option<(u32, u32)> = None;
            for v in &vs {
                if heads.contains(v) {
                    continue;
                }
                let mut o = vs.clone();
                o.remove(v);
                if extra.reaches(&o, *v) {
                    continue;
                }
                let d = e.deg(*v);
                if best.map_or(true, |b| d < b.1) {
                    best = Some((*v, d));
                }
            }
            let (v, d) = best?;
            heads.insert(v);
            defs.push((v, e.clone()));
            let mut rest = e.clone();
            rest.0.insert(vec![], Z::one());
            extra.rules.push(Rule { v, n: d + 1, rest });
        }
        let mut all = vars.clone();
        for (v, q) in &defs {
            all.insert(*v);
            q.vars(&mut all);
        }
        let mut a: Asg = Asg::new();
        for v in &all {
            if !heads.contains(v) && !self.invs.iter().any(|i| i.0 == *v) {
                // small and special values now and then
                let z = match rng.next() % 16 {
                    0 => Z::one(),
                    1 => Z::from(rng.next() % 5),
                    _ => rng.below(p),
                };
                a.insert(*v, z);
            }
        }
        let mut left = defs;
        while !left.is_empty() {
            let n = left.len();
            let mut keep = vec![];
            for (v, q) in left {
                let mut vs = BTreeSet::new();
                q.vars(&mut vs);
                vs.remove(&v);
                if vs.iter().all(|x| a.contains_key(x)) {
                    let mut cs = vec![];
                    for c in q.coeffs(v) {
                        cs.push(c.eval(&a, p)?);
                    }
                    a.insert(v, root(&cs, p, rng)?);
                } else {
                    keep.push((v, q));
                }
            }
            left = keep;
            if left.len() == n {
                return None;
            }
        }
        for (w, d) in &self.invs {
            let x = d.eval(&a, p)?;
            if x.is_zero() {
                return None;
            }
            a.insert(*w, x.modpow(&(p - 2), p));
        }
        Some(a)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn mont() {
        for h in ["7", "101", "115792089210356248762697446949407573530086143415290314195533631308867097853951"] {
            let p: Z = h.parse().unwrap();
            let m = Mont::new(&p).unwrap();
            let mut r = Rng(77);
            for _ in 0..200 {
                let (a, b) = (r.below(&p), r.below(&p));
                let (x, y) = (m.enc(&a), m.enc(&b));
                assert_eq!(m.dec(&m.mul(&x, &y)), (&a * &b).mod_floor(&p));
                assert_eq!(m.dec(&m.add(&x, &y)), (&a + &b).mod_floor(&p));
                assert_eq!(m.dec(&m.sub(&x, &y)), (&a - &b).mod_floor(&p));
            }
            let f: Vec<Z> = (0..5).map(|_| r.below(&p)).chain([Z::one()]).collect();
            let b: Vec<Z> = (0..3).map(|_| r.below(&p)).collect();
            let e = Z::from(12345);
            let mut q: Uni = vec![Z::one()];
            for i in (0..e.bits()).rev() {
                q = umul(&q, &q, &f, &p);
                if ((&e >> i) & Z::one()).is_one() {
                    q = umul(&q, &b, &f, &p);
                }
            }
            assert_eq!(umod(q, &f, &p), upow(&b, &e, &f, &p));
        }
    }
}
