//! Path-exploring symbolic execution engine behind the stand-in `BigInt`/`BigUint`.
//!
//! The code under test runs natively.  A big integer is either a concrete value or a reference to
//! a node of a hash-consed DAG of integer expressions.  Whenever the code asks a question whose
//! answer is needed as a machine value (a comparison, a parity, ...), `decide` asks the solver which
//! answers are possible under the current path condition, takes one and remembers the other; the
//! program is re-executed from the start until no unexplored answer is left.
use crate::poly::{Asg, Poly, Rng, Sys};
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use real::BigInt as Z;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

pub type Id = u32;

#[derive(Clone, Debug)]
pub enum V {
    C(Z),
    S(Id),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    C(Z),
    Var(String),
    Add(Id, Id),
    Mul(Id, Id),
    Neg(Id),
    Mod(Id, Z),
    Div(Id, Z),
}

struct Node {
    k: K,
    /// structural hash: the same term has the same one on every path
    h: u64,
    lo: Option<Z>,
    hi: Option<Z>, // inclusive
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum F {
    FEq(usize, Id, Id),
    IEq(Id, Id),
    ILt(Id, Id),
    B(u32),
    Not(Box<F>),
    Or(Vec<F>),
    And(Vec<F>),
    T(bool),
}

impl F {
    pub fn not(self) -> F {
        match self {
            F::Not(x) => *x,
            F::T(b) => F::T(!b),
            f => F::Not(Box::new(f)),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

/// Panic payloads the engine itself raises.
pub enum Abort {
    Dead,
    Unsupported(String),
    Violation,
    Budget(String),
}

/// A formula over simplified field atoms.
#[derive(Clone, Debug)]
enum SF {
    A(Poly),
    B(u32),
    Not(Box<SF>),
    Or(Vec<SF>),
    And(Vec<SF>),
    T(bool),
}
impl SF {
    fn not(self) -> SF {
        match self {
            SF::Not(x) => *x,
            SF::T(b) => SF::T(!b),
            f => SF::Not(Box::new(f)),
        }
    }
    fn vars(&self, out: &mut BTreeSet<u32>) {
        match self {
            SF::A(p) => p.vars(out),
            SF::Not(x) => x.vars(out),
            SF::Or(v) | SF::And(v) => v.iter().for_each(|x| x.vars(out)),
            _ => {}
        }
    }
}

struct Item {
    f: F,
    def: Option<(usize, Id)>,
    /// absorbed into the solved equations of its prime
    abs: bool,
    simp: Option<(u64, SF)>,
}

#[derive(Clone)]
struct Trail {
    val: u32,
    n: u32,
    /// alternatives known to be infeasible are never tried
    skip: Vec<u32>,
    weak: bool,
    /// what was asked
    h: u64,
    /// number of alternatives taken to continue alike (see `join`); 0 for an ordinary entry
    alt: u32,
}

struct ParCls {
    p: usize,
    v: Id,
    val: bool, // odd?
}
struct ChiCls {
    p: usize,
    v: Id,
    val: bool, // square?
}
/// base^expo with a symbolic exponent (already reduced modulo p-1), base nonzero
struct PowxMemo {
    p: usize,
    base: Id,
    e: Id,
    r: Id,
}
struct PowMemo {
    p: usize,
    base: Id,
    e: Z,
    r: Id,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub paths: u64,
    pub dead: u64,
    pub excluded: u64,
    pub decisions: u64,
    pub queries: u64,
    pub simplified: u64,
    pub witnessed: u64,
    pub settled: u64,
    pub confirmed: u64,
    pub cached: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub checks: u64,
    pub solver_ms: u64,
    pub max_query_ms: u64,
    pub nodes: u64,
    pub joins: u64,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub msg: String,
    pub model: Vec<(String, Z)>,
    pub choices: Vec<(String, u32)>,
    pub weak: bool,
}

pub struct Prime {
    pub p: Z,
    pub nu: Z, // a non-residue
}

pub struct Eng {
    nodes: Vec<Node>,
    hc: HashMap<K, Id>,
    over: HashMap<Id, (Option<Z>, Option<Z>)>,
    vars: Vec<(String, Id)>,
    pub primes: Vec<Prime>,
    notprime: Vec<Z>,
    pc: Vec<Item>,
    sys: Vec<Sys>,
    rng: Rng,
    nfm: HashMap<(usize, Id), (u64, std::rc::Rc<Poly>)>,
    pub nosimp: bool,
    pub confirm_ms: u64,
    pub all_lens: bool,
    trail: Vec<Trail>,
    pos: usize,
    pars: Vec<ParCls>,
    chis: Vec<ChiCls>,
    hints: Vec<(usize, Id, Id)>,
    prods: Vec<(usize, Id, Id)>,
    /// characters of products already determined on this path
    wholes: Vec<(usize, Id, bool)>,
    pows: Vec<PowMemo>,
    powxs: Vec<PowxMemo>,
    /// an uninterpreted value occurs: models of this path are partial
    unint: bool,
    invs: Vec<(usize, Id, Id)>,
    fresh: u32,
    choices: Vec<(String, u32)>,
    toks: HashMap<Vec<u8>, Id>,
    ff_cache: HashMap<u64, (Res, u64)>,
    pub stats: Stats,
    pub viols: Vec<Viol>,
    pub incon: Vec<String>,
    pub reached: BTreeSet<String>,
    pub weak_path: bool,
    z3: Option<Z3>,
    pub timeout_ms: u64,
    pub check_timeout_ms: u64,
    pub deadline: Option<Instant>,
    pub max_paths: u64,
    pub trace: bool,
    in_check: bool,
    /// moduli of symbolic values on this path
    mods: Vec<Z>,
    /// questions found not to be joins
    nojoin: BTreeSet<u64>,
    /// signs already answered by a join on this path
    signs: HashMap<Id, i8>,
    /// re-running a finished path with some joins taken the other way
    verifying: bool,
    mismatch: bool,
    vmsg: Option<String>,
    pending: Option<Viol>,
    pub dumpq: Option<String>,
}

thread_local! {
    static ENG: RefCell<Eng> = RefCell::new(Eng::new());
}

pub fn with<R>(f: impl FnOnce(&mut Eng) -> R) -> R {
    ENG.with(|e| f(&mut e.borrow_mut()))
}

fn abort(a: Abort) -> ! {
    std::panic::resume_unwind(Box::new(a))
}
pub fn unsupported(s: &str) -> ! {
    abort(Abort::Unsupported(s.to_string()))
}
pub fn dead() -> ! {
    abort(Abort::Dead)
}

struct Query {
    text: String,
    vars: BTreeSet<Id>,
    others: usize,
    known: Option<bool>,
    conds: Vec<SF>,
}

struct Z3 {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}

impl Z3 {
    fn start() -> Z3 {
        let mut child = Command::new("z3-new")
            .args(["-in", "-memory:6000"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("z3-new");
        let stdin = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        Z3 { child, stdin, rx }
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn is_probable_prime(n: &Z) -> bool {
    let two = Z::from(2);
    if n < &two {
        return false;
    }
    for q in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let q = Z::from(q);
        if n == &q {
            return true;
        }
        if n.mod_floor(&q).is_zero() {
            return false;
        }
    }
    let n1: Z = n - 1;
    let mut d = n1.clone();
    let mut s = 0;
    while d.is_even() {
        d >>= 1;
        s += 1;
    }
    'o: for a in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53] {
        let mut x = Z::from(a).modpow(&d, n);
        if x.is_one() || x == n1 {
            continue;
        }
        for _ in 0..s - 1 {
            x = (&x * &x).mod_floor(n);
            if x == n1 {
                continue 'o;
            }
        }
        return false;
    }
    true
}

fn omin(a: Option<Z>, b: Option<Z>) -> Option<Z> {
    match (a, b) {
        (Some(a), Some(b)) => Some(a.min(b)),
        _ => None,
    }
}
fn omax(a: Option<Z>, b: Option<Z>) -> Option<Z> {
    match (a, b) {
        (Some(a), Some(b)) => Some(a.max(b)),
        _ => None,
    }
}

impl Eng {
    fn new() -> Eng {
        Eng {
            nodes: vec![],
            hc: HashMap::new(),
            over: HashMap::new(),
            vars: vec![],
            primes: vec![],
            notprime: vec![],
            pc: vec![],
            sys: vec![],
            rng: Rng(0x9E3779B97F4A7C15),
            nfm: HashMap::new(),
            nosimp: std::env::var("SYM_NOSIMP").is_ok(),
            all_lens: std::env::var("SYM_ALL_LENS").is_ok(),
            confirm_ms: std::env::var("SYM_CONFIRM_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(1000),
            trail: vec![],
            pos: 0,
            pars: vec![],
            chis: vec![],
            hints: vec![],
            prods: vec![],
            wholes: vec![],
            pows: vec![],
            powxs: vec![],
            unint: false,
            invs: vec![],
            fresh: 0,
            choices: vec![],
            toks: HashMap::new(),
            ff_cache: HashMap::new(),
            stats: Stats::default(),
            viols: vec![],
            incon: vec![],
            reached: BTreeSet::new(),
            weak_path: false,
            z3: None,
            timeout_ms: 10_000,
            check_timeout_ms: 60_000,
            deadline: None,
            max_paths: 100_000,
            trace: std::env::var("SYM_TRACE").is_ok(),
            in_check: false,
            mods: vec![],
            nojoin: BTreeSet::new(),
            signs: HashMap::new(),
            verifying: false,
            mismatch: false,
            vmsg: None,
            pending: None,
            dumpq: std::env::var("SYM_DUMP").ok(),
        }
    }
    fn reset_path(&mut self) {
        self.nodes.clear();
        self.hc.clear();
        self.over.clear();
        self.vars.clear();
        self.pc.clear();
        self.sys.clear();
        self.nfm.clear();
        self.pars.clear();
        self.chis.clear();
        self.hints.clear();
        self.prods.clear();
        self.wholes.clear();
        self.pows.clear();
        self.powxs.clear();
        self.unint = false;
        self.invs.clear();
        self.fresh = 0;
        self.choices.clear();
        self.toks.clear();
        self.pos = 0;
        self.weak_path = false;
        self.in_check = false;
        self.mods.clear();
        self.signs.clear();
        self.mismatch = false;
        self.vmsg = None;
        self.pending = None;
    }

    // ---------------------------------------------------------------- nodes
    fn khash(&self, k: &K) -> u64 {
        let h = |i: &Id| self.nodes[*i as usize].h;
        let mut s = DefaultHasher::new();
        match k {
            K::C(z) => (0u8, z).hash(&mut s),
            K::Var(n) => (1u8, n).hash(&mut s),
            K::Add(a, b) => (2u8, h(a).min(h(b)), h(a).max(h(b))).hash(&mut s),
            K::Mul(a, b) => (3u8, h(a).min(h(b)), h(a).max(h(b))).hash(&mut s),
            K::Neg(a) => (4u8, h(a)).hash(&mut s),
            K::Mod(a, m) => (5u8, h(a), m).hash(&mut s),
            K::Div(a, m) => (6u8, h(a), m).hash(&mut s),
        }
        s.finish()
    }
    fn fhash(&self, f: &F) -> u64 {
        let h = |i: &Id| self.nodes[*i as usize].h;
        let mut s = DefaultHasher::new();
        match f {
            F::FEq(p, a, b) => (10u8, p, h(a).min(h(b)), h(a).max(h(b))).hash(&mut s),
            F::IEq(a, b) => (11u8, h(a).min(h(b)), h(a).max(h(b))).hash(&mut s),
            F::ILt(a, b) => (12u8, h(a), h(b)).hash(&mut s),
            F::B(i) => (13u8, i).hash(&mut s),
            F::T(b) => (14u8, b).hash(&mut s),
            F::Not(x) => (15u8, self.fhash(x)).hash(&mut s),
            F::Or(v) => (16u8, v.iter().map(|x| self.fhash(x)).collect::<Vec<_>>()).hash(&mut s),
            F::And(v) => (17u8, v.iter().map(|x| self.fhash(x)).collect::<Vec<_>>()).hash(&mut s),
        }
        s.finish()
    }
    /// The next question on the trail, when this run has not yet gone beyond it.
    fn replay(&mut self, h: u64, alt: u32) -> Option<Trail> {
        if self.pos < self.trail.len() {
            let t = self.trail[self.pos].clone();
            if t.h != h || t.alt != alt {
                self.mismatch = true;
                if !self.verifying {
                    abort(Abort::Unsupported("re-execution diverged".into()));
                }
                abort(Abort::Dead);
            }
            self.pos += 1;
            if t.weak {
                self.weak_path = true;
            }
            return Some(t);
        }
        if self.verifying {
            self.mismatch = true;
            abort(Abort::Dead);
        }
        None
    }
    fn record(&mut self, val: u32, n: u32, weak: bool, h: u64, alt: u32) {
        self.trail.push(Trail { val, n, skip: vec![], weak, h, alt });
        self.pos += 1;
    }
    /// A question whose answers are expected to lead to the same continuation, because the code only
    /// uses it to bring a value into range.  Answer 0 is explored; when the path is complete it is run
    /// again with the other answers, and unless every question asked from there on and the outcome are
    /// the same terms, this becomes an ordinary decision (`nojoin`).
    fn join(&mut self, h: u64, alt: u32) -> Option<u32> {
        if self.nojoin.contains(&h) {
            return None;
        }
        if let Some(t) = self.replay(h, alt) {
            return Some(t.val);
        }
        self.stats.joins += 1;
        self.record(0, 1, false, h, alt);
        Some(0)
    }
    /// Smallest modulus m with n in (-m, m), n possibly negative (thr = 0), or n in [0, 2m) (thr = m).
    fn red_mod(&self, n: Id, thr: &Z) -> Option<Z> {
        if !matches!(self.nodes[n as usize].k, K::Add(..) | K::Neg(_)) {
            return None;
        }
        let (l, h) = self.rng(n);
        let (l, h) = (l?, h?);
        if thr.is_zero() {
            self.mods.iter().filter(|m| l > -*m && &h < *m).min().cloned()
        } else if self.mods.contains(thr) && !l.is_negative() && h < thr * 2 {
            Some(thr.clone())
        } else {
            None
        }
    }
    /// From here on n stands for (n mod m) + off, where off is 0 or `other`.
    fn alias(&mut self, n: Id, m: &Z, off: bool, other: &Z) -> Id {
        let (lo, hi) = self.rng(n);
        let k = self.nodes[n as usize].k.clone();
        let h = self.nodes[n as usize].h;
        // (both ways create the same number of nodes, so that later ones are numbered alike)
        let old = self.nodes.len() as Id;
        self.nodes.push(Node { k, h, lo, hi });
        let r = self.mk(K::Mod(old, m.clone()));
        let c = self.mk(K::C(other.clone()));
        let (k, lo, hi) = if off {
            (K::Add(r, c), other.clone(), m - 1 + other)
        } else {
            (K::Mod(old, m.clone()), Z::zero(), m - 1)
        };
        let h = self.khash(&k);
        self.hc.insert(k.clone(), n);
        self.nodes[n as usize] = Node { k, h, lo: Some(lo), hi: Some(hi) };
        self.over.remove(&n);
        self.nfm.retain(|k, _| k.1 != n);
        if off {
            r
        } else {
            n
        }
    }
    /// Is n, known to lie in (-m, m), a multiple of m by what is known, and hence zero?
    fn zero_mod(&mut self, n: Id, m: &Z) -> bool {
        let p = match self.primes.iter().position(|p| &p.p == m) {
            Some(p) => p,
            None => return false,
        };
        let z = self.mk(K::C(Z::zero()));
        match self.feq(p, n, z) {
            F::T(b) => b,
            f => self.simplified_true(p, &f),
        }
    }
    fn join_hash(&self, kind: u8, n: Id, m: &Z) -> u64 {
        let mut s = DefaultHasher::new();
        (20u8, kind, self.nodes[n as usize].h, m).hash(&mut s);
        s.finish()
    }
    /// Truth of n < thr when that only selects a reduction.
    fn join_lt(&mut self, n: Id, thr: &Z) -> Option<bool> {
        let m = self.red_mod(n, thr)?;
        let z = thr.is_zero();
        if z && self.zero_mod(n, &m) {
            return Some(false);
        }
        let v = self.join(self.join_hash(z as u8, n, &m), 2)?;
        self.alias(n, &m, v == 1, &if z { -&m } else { m.clone() });
        Some((v == 1) == z)
    }
    /// Sign of n when that only selects a reduction.
    pub fn join_sign(&mut self, a: &V) -> Option<i8> {
        let n = match a {
            V::S(n) => *n,
            _ => return None,
        };
        if let Some(s) = self.signs.get(&n) {
            return Some(*s);
        }
        let (l, h) = self.rng(n);
        if l.map_or(false, |l| !l.is_negative()) || h.map_or(false, |h| h.is_negative()) {
            return None;
        }
        let m = self.red_mod(n, &Z::zero())?;
        if self.zero_mod(n, &m) {
            return Some(0);
        }
        let v = self.join(self.join_hash(2, n, &m), 3)?;
        let r = self.alias(n, &m, v == 2, &-&m);
        self.signs.insert(r, (v != 1) as i8);
        self.signs.insert(n, 1 - v as i8);
        Some(1 - v as i8)
    }
    /// Truncated remainder of a value of unknown sign.
    pub fn join_rem(&mut self, a: &V, m: &Z) -> Option<V> {
        let n = match a {
            V::S(n) => *n,
            _ => return None,
        };
        let (l, _) = self.rng(n);
        if l.map_or(false, |l| !l.is_negative()) || !matches!(self.nodes[n as usize].k, K::Add(..) | K::Neg(_)) {
            return None;
        }
        let v = self.join(self.join_hash(3, n, m), 2)?;
        let r = self.modf(a, m);
        let o = self.add(&r, &V::C(-m));
        Some(if v == 0 { r } else { o })
    }
    pub fn rng(&self, id: Id) -> (Option<Z>, Option<Z>) {
        if let Some((l, h)) = self.over.get(&id) {
            return (l.clone(), h.clone());
        }
        let n = &self.nodes[id as usize];
        (n.lo.clone(), n.hi.clone())
    }
    pub fn kind(&self, id: Id) -> &K {
        &self.nodes[id as usize].k
    }
    fn mk(&mut self, k: K) -> Id {
        if let Some(i) = self.hc.get(&k) {
            return *i;
        }
        let (lo, hi) = match &k {
            K::C(z) => (Some(z.clone()), Some(z.clone())),
            K::Var(_) => (None, None),
            K::Add(a, b) => {
                let (al, ah) = self.rng(*a);
                let (bl, bh) = self.rng(*b);
                (
                    al.and_then(|x| bl.map(|y| x + y)),
                    ah.and_then(|x| bh.map(|y| x + y)),
                )
            }
            K::Neg(a) => {
                let (l, h) = self.rng(*a);
                (h.map(|x| -x), l.map(|x| -x))
            }
            K::Mul(a, b) => {
                let (al, ah) = self.rng(*a);
                let (bl, bh) = self.rng(*b);
                match (al, ah, bl, bh) {
                    (Some(al), Some(ah), Some(bl), Some(bh)) => {
                        if a == b {
                            let m = (&al * &al).max(&ah * &ah);
                            (Some(Z::zero()), Some(m))
                        } else {
                            let c = [&al * &bl, &al * &bh, &ah * &bl, &ah * &bh];
                            (
                                Some(c.iter().min().unwrap().clone()),
                                Some(c.iter().max().unwrap().clone()),
                            )
                        }
                    }
                    _ => (None, None),
                }
            }
            K::Mod(_, m) => (Some(Z::zero()), Some(m - 1)),
            K::Div(a, m) => {
                let (l, h) = self.rng(*a);
                (l.map(|x| x.div_floor(m)), h.map(|x| x.div_floor(m)))
            }
        };
        let id = self.nodes.len() as Id;
        let h = self.khash(&k);
        self.nodes.push(Node {
            k: k.clone(),
            h,
            lo,
            hi,
        });
        self.hc.insert(k, id);
        self.stats.nodes += 1;
        if self.nodes.len() > 2_000_000 {
            abort(Abort::Budget("too many nodes".into()))
        }
        id
    }
    pub fn id(&mut self, v: &V) -> Id {
        match v {
            V::S(i) => *i,
            V::C(z) => self.mk(K::C(z.clone())),
        }
    }
    fn v(&self, id: Id) -> V {
        match &self.nodes[id as usize].k {
            K::C(z) => V::C(z.clone()),
            _ => V::S(id),
        }
    }
    pub fn add(&mut self, a: &V, b: &V) -> V {
        match (a, b) {
            (V::C(x), V::C(y)) => V::C(x + y),
            (V::C(z), o) | (o, V::C(z)) if z.is_zero() => o.clone(),
            _ => {
                // constants outermost
                let ((u, c), (w, d)) = (self.split(a), self.split(b));
                if (!c.is_zero() || !d.is_zero()) && !(matches!(u, V::C(_)) && matches!(b, V::S(_)) && d.is_zero()) && !(matches!(w, V::C(_)) && matches!(a, V::S(_)) && c.is_zero()) {
                    let t = self.add(&u, &w);
                    let z: Z = c + d;
                    return self.add_const(&t, z);
                }
                let (x, y) = (self.id(a), self.id(b));
                if let K::Neg(n) = self.kind(x) {
                    if *n == y {
                        return V::C(Z::zero());
                    }
                }
                if let K::Neg(n) = self.kind(y) {
                    if *n == x {
                        return V::C(Z::zero());
                    }
                }
                let i = self.mk(K::Add(x.min(y), x.max(y)));
                V::S(i)
            }
        }
    }
    /// v = (rest, constant)
    fn split(&self, v: &V) -> (V, Z) {
        match v {
            V::C(z) => (V::C(Z::zero()), z.clone()),
            V::S(i) => {
                if let (K::Add(x, y), false) = (self.kind(*i), self.over.contains_key(i)) {
                    for (x, y) in [(*x, *y), (*y, *x)] {
                        if let K::C(z) = self.kind(y) {
                            return (self.v(x), z.clone());
                        }
                    }
                }
                (v.clone(), Z::zero())
            }
        }
    }
    fn add_const(&mut self, t: &V, z: Z) -> V {
        match t {
            V::C(x) => V::C(x + z),
            t if z.is_zero() => t.clone(),
            V::S(i) => {
                let c = self.mk(K::C(z));
                V::S(self.mk(K::Add((*i).min(c), (*i).max(c))))
            }
        }
    }
    pub fn neg(&mut self, a: &V) -> V {
        match a {
            V::C(x) => V::C(-x),
            V::S(i) => {
                if let K::Neg(j) = self.kind(*i) {
                    let j = *j;
                    return self.v(j);
                }
                let (t, z) = self.split(a);
                if !z.is_zero() {
                    let t = self.neg(&t);
                    return self.add_const(&t, -z);
                }
                let i = self.mk(K::Neg(*i));
                V::S(i)
            }
        }
    }
    pub fn sub(&mut self, a: &V, b: &V) -> V {
        let nb = self.neg(b);
        self.add(a, &nb)
    }
    pub fn mul(&mut self, a: &V, b: &V) -> V {
        match (a, b) {
            (V::C(x), V::C(y)) => V::C(x * y),
            (V::C(z), o) | (o, V::C(z)) if z.is_zero() || z.is_one() => {
                if z.is_one() {
                    o.clone()
                } else {
                    V::C(Z::zero())
                }
            }
            (V::C(z), o) | (o, V::C(z)) if (-z).is_one() => {
                let o = o.clone();
                self.neg(&o)
            }
            _ => {
                let (x, y) = (self.id(a), self.id(b));
                let i = self.mk(K::Mul(x.min(y), x.max(y)));
                V::S(i)
            }
        }
    }
    fn within(&self, id: Id, lo: &Z, hi: &Z) -> bool {
        let (l, h) = self.rng(id);
        matches!((l, h), (Some(l), Some(h)) if &l >= lo && &h <= hi)
    }
    /// floor modulus, m > 0
    pub fn modf(&mut self, a: &V, m: &Z) -> V {
        assert!(m.is_positive());
        match a {
            V::C(x) => V::C(x.mod_floor(m)),
            V::S(i) => {
                if m.is_one() {
                    return V::C(Z::zero());
                }
                self.note_prime(m);
                if !self.mods.contains(m) {
                    self.mods.push(m.clone());
                }
                if self.within(*i, &Z::zero(), &(m - 1)) {
                    return a.clone();
                }
                // (e mod m) mod m' with m' | m
                let mut e = *i;
                while let K::Mod(f, mm) = self.kind(e) {
                    if mm.mod_floor(m).is_zero() {
                        e = *f;
                    } else {
                        break;
                    }
                }
                if self.within(e, &Z::zero(), &(m - 1)) {
                    return self.v(e);
                }
                // (e + k*m) mod m
                if let K::Add(x, y) = self.kind(e) {
                    for (x, y) in [(*x, *y), (*y, *x)] {
                        if matches!(self.kind(y), K::C(z) if z.mod_floor(m).is_zero()) {
                            let v = self.v(x);
                            return self.modf(&v, m);
                        }
                    }
                }
                if let Some(v) = self.cancel(e, m) {
                    return v;
                }
                let i = self.mk(K::Mod(e, m.clone()));
                V::S(i)
            }
        }
    }
    /// A product containing both x and 1/x, without them.
    fn cancel(&mut self, e: Id, m: &Z) -> Option<V> {
        if self.invs.is_empty() || !matches!(self.kind(e), K::Mul(..)) {
            return None;
        }
        let p = self.primes.iter().position(|q| &q.p == m)?;
        let (mut fs, mut neg, mut st) = (vec![], false, vec![e]);
        while let Some(i) = st.pop() {
            if fs.len() + st.len() > 24 {
                return None;
            }
            let i = self.falias(i, p);
            match self.kind(i) {
                K::Mul(a, b) => st.extend([*a, *b]),
                K::Neg(a) => {
                    neg = !neg;
                    st.push(*a)
                }
                _ => fs.push(i),
            }
        }
        let mut any = false;
        for (q, x, w) in self.invs.clone() {
            if q != p {
                continue;
            }
            let mut xs = (vec![], vec![x]);
            while let Some(i) = xs.1.pop() {
                let i = self.falias(i, p);
                match self.kind(i) {
                    K::Mul(a, b) if xs.0.len() < 8 => xs.1.extend([*a, *b]),
                    K::Neg(a) => {
                        xs.0.push(Id::MAX);
                        xs.1.push(*a)
                    }
                    _ => xs.0.push(i),
                }
            }
            'w: while let Some(k) = fs.iter().position(|f| *f == w) {
                let mut rest = fs.clone();
                rest.remove(k);
                let mut flip = neg;
                for y in &xs.0 {
                    if *y == Id::MAX {
                        flip = !flip;
                        continue;
                    }
                    match rest.iter().position(|f| f == y) {
                        Some(k) => {
                            rest.remove(k);
                        }
                        None => break 'w,
                    }
                }
                fs = rest;
                neg = flip;
                any = true;
            }
        }
        if !any {
            return None;
        }
        let mut r = V::C(Z::one());
        for f in fs {
            let f = self.v(f);
            let t = self.mul(&r, &f);
            r = self.modf(&t, m);
        }
        if neg {
            r = self.neg(&r);
        }
        Some(self.modf(&r, m))
    }
    pub fn divf(&mut self, a: &V, m: &Z) -> V {
        assert!(m.is_positive());
        match a {
            V::C(x) => V::C(x.div_floor(m)),
            V::S(i) => {
                if m.is_one() {
                    return a.clone();
                }
                let (l, h) = self.rng(*i);
                if let (Some(l), Some(h)) = (l, h) {
                    let (x, y) = (l.div_floor(m), h.div_floor(m));
                    if x == y {
                        return V::C(x);
                    }
                }
                let i = self.mk(K::Div(*i, m.clone()));
                V::S(i)
            }
        }
    }
    fn note_prime(&mut self, m: &Z) -> Option<usize> {
        if let Some(i) = self.primes.iter().position(|p| &p.p == m) {
            return Some(i);
        }
        if m <= &Z::from(2) || self.notprime.contains(m) {
            return None;
        }
        if !is_probable_prime(m) {
            self.notprime.push(m.clone());
            return None;
        }
        let e = (m - 1) / 2;
        let mut nu = Z::from(2);
        while nu.modpow(&e, m).is_one() {
            nu += 1;
        }
        self.primes.push(Prime { p: m.clone(), nu });
        Some(self.primes.len() - 1)
    }
    pub fn var(&mut self, name: &str, lo: Option<Z>, hi: Option<Z>) -> V {
        if let (Some(l), Some(h)) = (&lo, &hi) {
            if l == h {
                return V::C(l.clone());
            }
        }
        let k = K::Var(name.to_string());
        let new = !self.hc.contains_key(&k);
        let id = self.mk(k);
        if new {
            self.nodes[id as usize].lo = lo;
            self.nodes[id as usize].hi = hi;
            self.vars.push((name.to_string(), id));
        }
        // a range [1, p) says nothing to the field theory unless spelled out
        if let (Some(l), Some(h)) = (self.nodes[id as usize].lo.clone(), self.nodes[id as usize].hi.clone()) {
            if l.is_one() {
                if let Some(p) = self.note_prime(&(h + 1)) {
                    let zero = self.mk(K::C(Z::zero()));
                    self.assume(F::FEq(p, zero.min(id), zero.max(id)).not());
                }
            }
        }
        V::S(id)
    }
    /// A value the engine cannot tell (fragment of a token).
    pub fn anything(&mut self) -> V {
        let n = format!("_any{}", self.fresh);
        self.fresh += 1;
        self.unint = true;
        self.weak_path = true;
        self.var(&n, Some(Z::zero()), Some(Z::one() << 1024usize))
    }
    pub fn lookup(&mut self, name: &str) -> Option<V> {
        if let Some(r) = name.strip_prefix('#') {
            let i: u32 = r.parse().ok()?;
            if (i as usize) < self.nodes.len() {
                return Some(self.v(i));
            }
            return None;
        }
        self.hc
            .get(&K::Var(name.to_string()))
            .copied()
            .map(|i| self.v(i))
    }
    fn fresh_var(&mut self, tag: &str, p: usize) -> Id {
        let n = format!("_{}{}", tag, self.fresh);
        self.fresh += 1;
        let hi = &self.primes[p].p - 1;
        match self.var(&n, Some(Z::zero()), Some(hi)) {
            V::S(i) => i,
            _ => unreachable!(),
        }
    }

    // ---------------------------------------------------------------- lowering to the field
    /// Follow aliases: the node whose field lowering this node shares.
    fn falias(&self, mut id: Id, p: usize) -> Id {
        loop {
            match &self.nodes[id as usize].k {
                K::Mod(e, m) => {
                    if m.mod_floor(&self.primes[p].p).is_zero()
                        || self.within(*e, &Z::zero(), &(m - 1))
                    {
                        id = *e
                    } else {
                        return id;
                    }
                }
                _ => return id,
            }
        }
    }
    fn fkids(&self, id: Id) -> Option<(Id, Option<Id>)> {
        match &self.nodes[id as usize].k {
            K::Add(a, b) | K::Mul(a, b) => Some((*a, Some(*b))),
            K::Neg(a) => Some((*a, None)),
            _ => None,
        }
    }
    fn fleaves(&self, id: Id, p: usize, memo: &mut HashMap<Id, ()>, out: &mut BTreeSet<Id>) {
        let mut st = vec![id];
        while let Some(i) = st.pop() {
            let i = self.falias(i, p);
            if memo.insert(i, ()).is_some() {
                continue;
            }
            match self.fkids(i) {
                Some((a, b)) => {
                    st.push(a);
                    if let Some(b) = b {
                        st.push(b)
                    }
                }
                None => {
                    if !matches!(self.nodes[i as usize].k, K::C(_)) {
                        out.insert(i);
                    }
                }
            }
        }
    }
    fn formula_leaves(&self, f: &F, p: usize, out: &mut BTreeSet<Id>) -> bool {
        // returns false when the formula is not purely about prime p / booleans
        match f {
            F::FEq(q, a, b) => {
                if *q != p {
                    return false;
                }
                let mut m = HashMap::new();
                self.fleaves(*a, p, &mut m, out);
                self.fleaves(*b, p, &mut m, out);
                true
            }
            F::IEq(..) | F::ILt(..) => false,
            F::B(_) | F::T(_) => true,
            F::Not(x) => self.formula_leaves(x, p, out),
            F::Or(v) | F::And(v) => v.iter().all(|x| self.formula_leaves(x, p, out)),
        }
    }
    fn emit_ff(&self, id: Id, p: usize, done: &mut BTreeSet<Id>, s: &mut String) -> Id {
        use std::fmt::Write;
        let root = self.falias(id, p);
        let mut st = vec![(root, false)];
        while let Some((i, ready)) = st.pop() {
            if done.contains(&i) {
                continue;
            }
            if !ready {
                st.push((i, true));
                if let Some((a, b)) = self.fkids(i) {
                    st.push((self.falias(a, p), false));
                    if let Some(b) = b {
                        st.push((self.falias(b, p), false));
                    }
                }
                continue;
            }
            done.insert(i);
            let r = |x: &Id| format!("n{}", self.falias(*x, p));
            match &self.nodes[i as usize].k {
                K::C(z) => {
                    let _ = writeln!(
                        s,
                        "(define-fun n{} () F (as ff{} F))",
                        i,
                        z.mod_floor(&self.primes[p].p)
                    );
                }
                K::Add(a, b) => {
                    let _ = writeln!(s, "(define-fun n{} () F (ff.add {} {}))", i, r(a), r(b));
                }
                K::Mul(a, b) => {
                    let _ = writeln!(s, "(define-fun n{} () F (ff.mul {} {}))", i, r(a), r(b));
                }
                K::Neg(a) => {
                    let _ = writeln!(s, "(define-fun n{} () F (ff.neg {}))", i, r(a));
                }
                _ => {
                    let _ = writeln!(s, "(declare-fun n{} () F)", i);
                }
            }
        }
        root
    }
    fn emit_int(&self, id: Id, done: &mut BTreeSet<Id>, s: &mut String) {
        use std::fmt::Write;
        let mut st = vec![(id, false)];
        while let Some((i, ready)) = st.pop() {
            if done.contains(&i) {
                continue;
            }
            let k = &self.nodes[i as usize].k;
            let nonlin = matches!(k, K::Mul(a,b) if !matches!(self.nodes[*a as usize].k,K::C(_)) && !matches!(self.nodes[*b as usize].k,K::C(_)));
            if !ready {
                st.push((i, true));
                if !nonlin {
                    match k {
                        K::Add(a, b) | K::Mul(a, b) => {
                            st.push((*a, false));
                            st.push((*b, false));
                        }
                        K::Neg(a) | K::Mod(a, _) | K::Div(a, _) => st.push((*a, false)),
                        _ => {}
                    }
                }
                continue;
            }
            done.insert(i);
            let c = |z: &Z| {
                if z.is_negative() {
                    format!("(- {})", -z)
                } else {
                    z.to_string()
                }
            };
            let r = |x: &Id| format!("n{}", x);
            match k {
                K::C(z) => {
                    let _ = writeln!(s, "(define-fun n{} () Int {})", i, c(z));
                    continue;
                }
                K::Add(a, b) => {
                    let _ = writeln!(s, "(define-fun n{} () Int (+ {} {}))", i, r(a), r(b));
                }
                K::Mul(a, b) if !nonlin => {
                    let _ = writeln!(s, "(define-fun n{} () Int (* {} {}))", i, r(a), r(b));
                }
                K::Neg(a) => {
                    let _ = writeln!(s, "(define-fun n{} () Int (- {}))", i, r(a));
                }
                K::Mod(a, m) => {
                    let _ = writeln!(s, "(define-fun n{} () Int (mod {} {}))", i, r(a), m);
                }
                K::Div(a, m) => {
                    let _ = writeln!(s, "(define-fun n{} () Int (div {} {}))", i, r(a), m);
                }
                _ => {
                    let _ = writeln!(s, "(declare-fun n{} () Int)", i);
                }
            }
            let (lo, hi) = self.rng(i);
            if let Some(l) = lo {
                let _ = writeln!(s, "(assert (<= {} n{}))", c(&l), i);
            }
            if let Some(h) = hi {
                let _ = writeln!(s, "(assert (<= n{} {}))", i, c(&h));
            }
        }
    }
    fn emit_formula(
        &self,
        f: &F,
        p: Option<usize>,
        done: &mut BTreeSet<Id>,
        bools: &mut BTreeSet<u32>,
        s: &mut String,
    ) -> String {
        match f {
            F::FEq(q, a, b) => {
                let x = self.emit_ff(*a, *q, done, s);
                let y = self.emit_ff(*b, *q, done, s);
                format!("(= n{} n{})", x, y)
            }
            F::IEq(a, b) => {
                self.emit_int(*a, done, s);
                self.emit_int(*b, done, s);
                format!("(= n{} n{})", a, b)
            }
            F::ILt(a, b) => {
                self.emit_int(*a, done, s);
                self.emit_int(*b, done, s);
                format!("(< n{} n{})", a, b)
            }
            F::B(i) => {
                if bools.insert(*i) {
                    s.push_str(&format!("(declare-fun b{} () Bool)\n", i));
                }
                format!("b{}", i)
            }
            F::T(b) => format!("{}", b),
            F::Not(x) => format!("(not {})", self.emit_formula(x, p, done, bools, s)),
            F::Or(v) => {
                let t: Vec<_> = v
                    .iter()
                    .map(|x| self.emit_formula(x, p, done, bools, s))
                    .collect();
                format!("(or false {})", t.join(" "))
            }
            F::And(v) => {
                let t: Vec<_> = v
                    .iter()
                    .map(|x| self.emit_formula(x, p, done, bools, s))
                    .collect();
                format!("(and true {})", t.join(" "))
            }
        }
    }
    fn fprime(f: &F) -> Option<usize> {
        match f {
            F::FEq(p, ..) => Some(*p),
            F::Not(x) => Self::fprime(x),
            F::Or(v) | F::And(v) => v.iter().find_map(Self::fprime),
            _ => None,
        }
    }
    fn fint(f: &F) -> bool {
        match f {
            F::IEq(..) | F::ILt(..) => true,
            F::Not(x) => Self::fint(x),
            F::Or(v) | F::And(v) => v.iter().any(Self::fint),
            _ => false,
        }
    }

    fn ff_query_raw(&self, p: usize, goal: &F, all: bool, lvl: usize) -> (String, BTreeSet<Id>, usize) {
        let mut others = 0usize;
        let mut need = BTreeSet::new();
        self.formula_leaves(goal, p, &mut need);
        let mut inc: Vec<bool> = vec![false; self.pc.len()];
        let lv: Vec<Option<BTreeSet<Id>>> = self
            .pc
            .iter()
            .map(|it| {
                let mut o = BTreeSet::new();
                if self.formula_leaves(&it.f, p, &mut o) && Self::fprime(&it.f) == Some(p) {
                    if !matches!(it.f, F::FEq(..)) {
                        others += 1;
                        if lvl == 0 || lvl > 1 && others != lvl - 1 {
                            return None;
                        }
                    }
                    Some(o)
                } else {
                    None
                }
            })
            .collect();
        loop {
            let mut ch = false;
            for (i, it) in self.pc.iter().enumerate() {
                if inc[i] {
                    continue;
                }
                if let Some(l) = &lv[i] {
                    let take = all
                        || match it.def {
                            Some((q, leaf)) => q == p && need.contains(&leaf),
                            None => l.iter().any(|x| need.contains(x)),
                        };
                    if take {
                        inc[i] = true;
                        need.extend(l.iter().copied());
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut s = format!(
            "(set-logic QF_FF)\n(define-sort F () (_ FiniteField {}))\n",
            self.primes[p].p
        );
        let mut done = BTreeSet::new();
        let mut bools = BTreeSet::new();
        for (i, it) in self.pc.iter().enumerate() {
            if inc[i] {
                let t = self.emit_formula(&it.f, Some(p), &mut done, &mut bools, &mut s);
                s.push_str(&format!("(assert {})\n", t));
            }
        }
        let t = self.emit_formula(goal, Some(p), &mut done, &mut bools, &mut s);
        s.push_str(&format!("(assert {})\n", t));
        (s, need, others)
    }
    fn int_query(&self, goal: &F) -> String {
        let mut s = String::from("(set-logic QF_NIA)\n");
        let mut done = BTreeSet::new();
        let mut bools = BTreeSet::new();
        for it in self.pc.iter() {
            if Self::fint(&it.f) && Self::fprime(&it.f).is_none() {
                let t = self.emit_formula(&it.f, None, &mut done, &mut bools, &mut s);
                s.push_str(&format!("(assert {})\n", t));
            }
        }
        let t = self.emit_formula(goal, None, &mut done, &mut bools, &mut s);
        s.push_str(&format!("(assert {})\n", t));
        s
    }

    fn raw(&mut self, q: &str, tail: &str, ms: u64) -> (Res, Vec<String>) {
        if let Some(d) = self.deadline {
            if Instant::now() > d {
                abort(Abort::Budget("deadline".into()))
            }
        }
        let t0 = Instant::now();
        let text = format!(
            "(reset)\n(set-option :timeout {})\n{}(check-sat)\n{}(echo \"@@done\")\n",
            ms, q, tail
        );
        if let Some(d) = &self.dumpq {
            let _ = std::fs::write(format!("{}/q{}.smt2", d, self.stats.queries), &text);
        }
        if self.z3.is_none() {
            self.z3 = Some(Z3::start());
        }
        let mut out = vec![];
        let mut ok = true;
        {
            let z = self.z3.as_mut().unwrap();
            if z.stdin.write_all(text.as_bytes()).is_err() || z.stdin.flush().is_err() {
                ok = false;
            }
            let end = Instant::now() + Duration::from_millis(ms + ms / 2 + 2000);
            while ok {
                let left = end.saturating_duration_since(Instant::now());
                match z.rx.recv_timeout(left) {
                    Ok(l) => {
                        if l.contains("@@done") {
                            break;
                        }
                        out.push(l)
                    }
                    Err(RecvTimeoutError::Timeout) | Err(RecvTimeoutError::Disconnected) => {
                        ok = false
                    }
                }
            }
        }
        let dt = t0.elapsed().as_millis() as u64;
        self.stats.queries += 1;
        self.stats.solver_ms += dt;
        self.stats.max_query_ms = self.stats.max_query_ms.max(dt);
        if !ok {
            self.z3 = None;
        }
        let first = out.first().map(|s| s.as_str()).unwrap_or("");
        let err = out.iter().any(|l| l.starts_with("(error"));
        let r = if !ok {
            Res::Unknown
        } else if first == "unsat" {
            Res::Unsat
        } else if err {
            eprintln!("solver error: {:?}", out);
            Res::Unknown
        } else if first == "sat" {
            Res::Sat
        } else {
            Res::Unknown
        };
        match r {
            Res::Sat => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        if self.trace {
            eprintln!("  [query {} {:?} {} ms]", self.stats.queries, r, dt);
        }
        (r, out)
    }
    /// Can `goal` hold together with the path condition?
    pub fn feas(&mut self, goal: &F) -> Res {
        let mut r = Res::Unknown;
        for stage in 0..3 {
            r = self.feas_stage(goal, stage);
            if r != Res::Unknown {
                break;
            }
        }
        r
    }
    /// Increasing effort: 0 = quick attempt, 1 = subsets of the premises, 2 = full time limit.
    fn feas_stage(&mut self, goal: &F, stage: u32) -> Res {
        match goal {
            F::T(b) => return if *b { Res::Sat } else { Res::Unsat },
            _ => {}
        }
        let q = match (Self::fprime(goal), Self::fint(goal)) {
            (Some(p), false) => return self.feas_ff(p, goal, stage),
            (None, true) => self.int_query(goal),
            (None, false) => return Res::Sat,
            _ => return Res::Unknown,
        };
        let ms = if self.in_check { self.check_timeout_ms } else { self.timeout_ms };
        match stage {
            0 => self.ask(&q, ms.min(2000)),
            1 => Res::Unknown,
            _ => self.ask(&q, ms),
        }
    }
    fn feas_ff(&mut self, p: usize, goal: &F, stage: u32) -> Res {
        let ms = if self.in_check { self.check_timeout_ms } else { self.timeout_ms };
        let quick = ms.min(1500);
        let full = self.ff_query(p, goal, false, 1);
        if let Some(b) = full.known {
            self.stats.simplified += 1;
            if self.in_check && !b && self.confirm_ms > 0 {
                self.confirm(p, goal);
            }
            return if b { Res::Sat } else { Res::Unsat };
        }
        let conds = full.conds;
        let (full, n) = (full.text, full.others);
        if stage == 0 && !conds.is_empty() {
            let mut h = DefaultHasher::new();
            full.hash(&mut h);
            let key = h.finish();
            match self.ff_cache.get(&key) {
                Some((Res::Sat, _)) => {
                    self.stats.cached += 1;
                    return Res::Sat;
                }
                Some(_) => {}
                None => {
                    if self.witness(p, &conds, 16).is_some() {
                        self.stats.witnessed += 1;
                        self.ff_cache.insert(key, (Res::Sat, u64::MAX));
                        return Res::Sat;
                    }
                }
            }
        }
        let eqs = self.ff_query(p, goal, false, 0).text;
        let simple = eqs == full || n == 0;
        match stage {
            0 => {
                // fewer premises first: unsatisfiable stays unsatisfiable
                if !simple && self.ask(&eqs, quick) == Res::Unsat {
                    return Res::Unsat;
                }
                self.ask(&full, quick)
            }
            1 => {
                if simple {
                    return Res::Unknown;
                }
                let mut seen = BTreeSet::new();
                for k in 0..n.min(24) {
                    let q = self.ff_query(p, goal, false, 2 + k).text;
                    if q == eqs || !seen.insert(q.clone()) {
                        continue;
                    }
                    if self.ask(&q, quick) == Res::Unsat {
                        return Res::Unsat;
                    }
                }
                Res::Unknown
            }
            _ => {
                if !simple && self.ask(&eqs, ms / 3) == Res::Unsat {
                    return Res::Unsat;
                }
                self.ask(&full, ms)
            }
        }
    }
    /// An assertion the simplifier already settled is also put to the solver as encoded from the
    /// code, without simplification.
    fn confirm(&mut self, p: usize, goal: &F) {
        self.stats.settled += 1;
        let ms = self.confirm_ms;
        let (q, _, _) = self.ff_query_raw(p, goal, false, 0);
        let mut r = self.ask(&q, ms);
        if r != Res::Unsat {
            let (full, _, _) = self.ff_query_raw(p, goal, false, 1);
            if full != q {
                r = self.ask(&full, ms);
            }
        }
        match r {
            Res::Unsat => self.stats.confirmed += 1,
            Res::Sat => {
                if self.incon.len() < 20 {
                    self.incon.push("simplifier and solver disagree".into());
                }
            }
            // this case's identities are beyond the solver in raw form: spend less on the rest
            Res::Unknown => self.confirm_ms = (ms * 3 / 4).max(60),
        }
    }
    fn sf_eval(f: &SF, a: &Asg, p: &Z) -> Option<bool> {
        Some(match f {
            SF::A(q) => q.eval(a, p)?.is_zero(),
            SF::B(_) => return None,
            SF::T(b) => *b,
            SF::Not(x) => !Self::sf_eval(x, a, p)?,
            SF::Or(v) => {
                let mut r = false;
                for x in v {
                    r |= Self::sf_eval(x, a, p)?
                }
                r
            }
            SF::And(v) => {
                let mut r = true;
                for x in v {
                    r &= Self::sf_eval(x, a, p)?
                }
                r
            }
        })
    }
    /// A concrete assignment satisfying the solved equations of p and `conds`, if sampling finds one.
    fn witness(&mut self, p: usize, conds: &[SF], tries: u32) -> Option<Asg> {
        let m = self.primes[p].p.clone();
        let mut rng = Rng(self.rng.next());
        let mut vars = BTreeSet::new();
        for c in conds {
            c.vars(&mut vars);
        }
        let mut last: Option<(u64, Sys)> = None;
        for _ in 0..tries {
            // positive atoms are solved for rather than hoped for
            let pick = rng.next();
            let mut todo: Vec<&SF> = conds.iter().collect();
            let mut ats = vec![];
            let mut k = pick;
            let mut sig = 0u64;
            while let Some(c) = todo.pop() {
                match c {
                    SF::A(q) => ats.push(q),
                    SF::And(v) => todo.extend(v.iter()),
                    SF::Or(v) => {
                        let pos: Vec<&SF> = v.iter().filter(|x| !matches!(x, SF::Not(_))).collect();
                        if pos.len() == v.len() {
                            let j = (k % v.len() as u64) as usize;
                            k /= v.len() as u64;
                            sig = sig * 31 + j as u64 + 1;
                            todo.push(&v[j]);
                        }
                    }
                    _ => {}
                }
            }
            let same = matches!(&last, Some((s, _)) if *s == sig);
            if !same {
                let mut s = self.sys[p].clone();
                let mut ok = true;
                for q in ats {
                    ok &= s.assert_zero(q.clone(), &m).is_some();
                }
                if !ok {
                    return None;
                }
                last = Some((sig, s));
            }
            let s = &last.as_ref().unwrap().1;
            if let Some(a) = s.sample(&vars, &m, &mut rng) {
                if conds.iter().all(|c| Self::sf_eval(c, &a, &m) == Some(true)) {
                    return Some(a);
                }
            }
        }
        None
    }
    /// Integer value of a node under an assignment of the variables.
    fn ieval(&self, id: Id, a: &HashMap<Id, Z>, memo: &mut HashMap<Id, Z>) -> Option<Z> {
        let mut st = vec![(id, false)];
        while let Some((i, ready)) = st.pop() {
            if memo.contains_key(&i) {
                continue;
            }
            let k = &self.nodes[i as usize].k;
            if !ready {
                st.push((i, true));
                match k {
                    K::Add(x, y) | K::Mul(x, y) => {
                        st.push((*x, false));
                        st.push((*y, false));
                    }
                    K::Neg(x) | K::Mod(x, _) | K::Div(x, _) => st.push((*x, false)),
                    _ => {}
                }
                continue;
            }
            let z = match k {
                K::C(z) => z.clone(),
                K::Var(_) => a.get(&i)?.clone(),
                K::Add(x, y) => &memo[x] + &memo[y],
                K::Mul(x, y) => &memo[x] * &memo[y],
                K::Neg(x) => -&memo[x],
                K::Mod(x, m) => memo[x].mod_floor(m),
                K::Div(x, m) => memo[x].div_floor(m),
            };
            memo.insert(i, z);
        }
        memo.get(&id).cloned()
    }
    fn feval(&self, f: &F, a: &HashMap<Id, Z>, memo: &mut HashMap<Id, Z>) -> Option<bool> {
        Some(match f {
            F::FEq(p, x, y) => {
                let d = self.ieval(*x, a, memo)? - self.ieval(*y, a, memo)?;
                d.mod_floor(&self.primes[*p].p).is_zero()
            }
            F::IEq(x, y) => self.ieval(*x, a, memo)? == self.ieval(*y, a, memo)?,
            F::ILt(x, y) => self.ieval(*x, a, memo)? < self.ieval(*y, a, memo)?,
            F::B(_) => return None,
            F::T(b) => *b,
            F::Not(x) => !self.feval(x, a, memo)?,
            F::Or(v) => {
                let mut r = false;
                for x in v {
                    r |= self.feval(x, a, memo)?
                }
                r
            }
            F::And(v) => {
                let mut r = true;
                for x in v {
                    r &= self.feval(x, a, memo)?
                }
                r
            }
        })
    }
    /// Does the assignment satisfy everything assumed on this path, classes included?
    fn full_ok(&self, a: &HashMap<Id, Z>) -> bool {
        let mut memo = HashMap::new();
        for it in &self.pc {
            if self.feval(&it.f, a, &mut memo) != Some(true) {
                return false;
            }
        }
        for c in &self.pars {
            match self.ieval(c.v, a, &mut memo) {
                Some(z) if z.mod_floor(&self.primes[c.p].p).is_odd() == c.val => {}
                _ => return false,
            }
        }
        for c in &self.chis {
            match self.ieval(c.v, a, &mut memo) {
                Some(z) if z.is_zero() || self.chi_const(c.p, &z) == c.val => {}
                _ => return false,
            }
        }
        self.vars.iter().all(|(_, i)| {
            let (l, h) = self.rng(*i);
            match a.get(i) {
                Some(z) => l.map_or(true, |l| z >= &l) && h.map_or(true, |h| z <= &h),
                None => false,
            }
        })
    }
    /// Complete assignment for this path by sampling.
    fn full_model(&mut self) -> Option<HashMap<Id, Z>> {
        let t0 = Instant::now();
        let mut conds: Vec<Vec<SF>> = vec![];
        for p in 0..self.primes.len() {
            self.sysm(p);
            if self.sys[p].off {
                return None;
            }
            conds.push(self.ff_query(p, &F::T(true), true, 1).conds);
        }
        for _ in 0..3000 {
            if t0.elapsed().as_millis() > 6000 {
                break;
            }
            let mut a: HashMap<Id, Z> = HashMap::new();
            let mut ok = true;
            for p in 0..self.primes.len() {
                match self.witness(p, &conds[p], 8) {
                    Some(w) => {
                        for (k, v) in w {
                            a.entry(k).or_insert(v);
                        }
                    }
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            if !ok {
                continue;
            }
            for (_, i) in &self.vars {
                if !a.contains_key(i) {
                    let (l, h) = self.rng(*i);
                    let (l, h) = (l.unwrap_or_default(), h.unwrap_or_default());
                    let w: Z = &h - &l + 1;
                    let z = if w.is_positive() { &l + Rng(self.rng.0 ^ (*i as u64 + 77)).below(&w) } else { l };
                    a.insert(*i, z);
                }
            }
            self.rng.next();
            if self.full_ok(&a) {
                return Some(a);
            }
        }
        None
    }
    /// Both sides of an asserted equation are one term: the solver still gets the question.
    fn identical(&mut self, i: Id) {
        if matches!(self.nodes[i as usize].k, K::C(_)) {
            return;
        }
        let mut s = String::from("(set-logic QF_NIA)\n");
        let mut done = BTreeSet::new();
        let mut bools = BTreeSet::new();
        let t = self.emit_formula(&F::IEq(i, i).not(), None, &mut done, &mut bools, &mut s);
        s.push_str(&format!("(assert {})\n", t));
        if self.ask(&s, 2000) == Res::Sat {
            self.incon.push("simplifier and solver disagree".into());
        }
    }
    fn ask(&mut self, q: &str, ms: u64) -> Res {
        let mut h = DefaultHasher::new();
        q.hash(&mut h);
        let key = h.finish();
        if let Some((r, t)) = self.ff_cache.get(&key) {
            // an unknown found under a smaller limit is not final
            if *r != Res::Unknown || *t >= ms {
                self.stats.cached += 1;
                return *r;
            }
        }
        let (r, _) = self.raw(q, "", ms);
        self.ff_cache.insert(key, (r, ms));
        r
    }
    pub fn entails(&mut self, f: &F) -> bool {
        self.feas(&f.clone().not()) == Res::Unsat
    }

    pub fn assume(&mut self, f: F) {
        match f {
            F::T(true) => {}
            F::T(false) => dead(),
            F::And(v) => v.into_iter().for_each(|g| self.assume(g)),
            f => self.push(f, None),
        }
    }
    fn define(&mut self, f: F, p: usize, leaf: Id) {
        match f {
            F::And(v) => v.into_iter().for_each(|g| self.push(g, Some((p, leaf)))),
            f => self.push(f, Some((p, leaf))),
        }
    }
    fn push(&mut self, f: F, def: Option<(usize, Id)>) {
        let mut abs = false;
        if !self.nosimp {
            if let F::FEq(p, a, b) = &f {
                let (p, a, b) = (*p, *a, *b);
                abs = true;
                if def.is_none() || !self.invs.iter().any(|(q, _, w)| Some((*q, *w)) == def) {
                    self.absorb(p, a, b);
                }
            } else if let F::Not(x) = &f {
                if let F::FEq(p, a, b) = &**x {
                    let (p, a, b) = (*p, *a, *b);
                    if let Some(q) = self.diff_poly(p, a, b) {
                        let m = self.primes[p].p.clone();
                        if let Some(q) = self.sysm(p).atom(q, &m) {
                            self.sysm(p).note_nz(q);
                        }
                    }
                }
            }
        }
        self.pc.push(Item { f, def, abs, simp: None });
    }
    fn sysm(&mut self, p: usize) -> &mut Sys {
        while self.sys.len() <= p {
            self.sys.push(Sys::default());
        }
        &mut self.sys[p]
    }
    fn absorb(&mut self, p: usize, a: Id, b: Id) {
        let m = self.primes[p].p.clone();
        let r = match self.diff_poly(p, a, b) {
            None => None,
            Some(q) => self.sysm(p).assert_zero(q, &m),
        };
        if r.is_none() {
            self.sysm(p).off = true;
            if self.trace {
                eprintln!("  [simplifier off]");
            }
        }
    }
    fn diff_poly(&mut self, p: usize, a: Id, b: Id) -> Option<Poly> {
        let m = self.primes[p].p.clone();
        let x = self.nf(p, a)?;
        let y = self.nf(p, b)?;
        Some(x.sub(&y, &m))
    }
    /// Polynomial normal form of a node modulo the solved equations of the path.
    fn nf(&mut self, p: usize, id: Id) -> Option<std::rc::Rc<Poly>> {
        use std::rc::Rc;
        self.sysm(p);
        if self.sys[p].off {
            return None;
        }
        let m = self.primes[p].p.clone();
        let root = self.falias(id, p);
        let mut st = vec![root];
        while let Some(&i) = st.last() {
            let gen = self.sys[p].gen;
            if let Some((g, q)) = self.nfm.get(&(p, i)) {
                if *g != gen {
                    let q = self.sys[p].reduce((**q).clone(), &m)?;
                    self.nfm.insert((p, i), (gen, Rc::new(q)));
                }
                st.pop();
                continue;
            }
            let mut get = |s: &Self, x: Id, st: &mut Vec<Id>| -> Option<Option<Rc<Poly>>> {
                let x = s.falias(x, p);
                match s.nfm.get(&(p, x)) {
                    Some((g, q)) if *g == gen => Some(Some(q.clone())),
                    Some((_, q)) => Some(Some(Rc::new(s.sys[p].reduce((**q).clone(), &m)?))),
                    None => {
                        st.push(x);
                        Some(None)
                    }
                }
            };
            let r = match self.nodes[i as usize].k.clone() {
                K::C(z) => Poly::konst(&z, &m),
                K::Add(a, b) | K::Mul(a, b) => {
                    let mut ns = vec![];
                    let x = get(self, a, &mut ns)?;
                    let y = get(self, b, &mut ns)?;
                    match (x, y) {
                        (Some(x), Some(y)) => {
                            if matches!(self.nodes[i as usize].k, K::Add(..)) {
                                x.add(&y, &m)
                            } else {
                                let t = x.mul(&y, &m)?;
                                self.sys[p].reduce(t, &m)?
                            }
                        }
                        _ => {
                            st.extend(ns);
                            continue;
                        }
                    }
                }
                K::Neg(a) => {
                    let mut ns = vec![];
                    match get(self, a, &mut ns)? {
                        Some(x) => x.neg(&m),
                        None => {
                            st.extend(ns);
                            continue;
                        }
                    }
                }
                _ => self.sys[p].reduce(Poly::var(i), &m)?,
            };
            self.nfm.insert((p, i), (gen, Rc::new(r)));
            st.pop();
        }
        self.nfm.get(&(p, root)).map(|x| x.1.clone())
    }
    /// The value of a residue the solved equations of the path pin down.
    fn kst(&mut self, p: usize, id: Id) -> Option<Z> {
        if let K::C(z) = self.kind(id) {
            return Some(z.mod_floor(&self.primes[p].p));
        }
        if self.nosimp {
            return None;
        }
        let m = self.primes[p].p.clone();
        self.nf(p, id)?.as_const().map(|z| z.mod_floor(&m))
    }
    fn simp(&mut self, p: usize, f: &F) -> Option<SF> {
        Some(match f {
            F::FEq(q, a, b) => {
                if *q != p {
                    return None;
                }
                let m = self.primes[p].p.clone();
                let d = self.diff_poly(p, *a, *b)?;
                let d = self.sys[p].atom(d, &m)?;
                match d.as_const() {
                    Some(c) => SF::T(c.is_zero()),
                    None => SF::A(d),
                }
            }
            F::B(i) => SF::B(*i),
            F::T(b) => SF::T(*b),
            F::Not(x) => self.simp(p, x)?.not(),
            F::Or(v) | F::And(v) => {
                let or = matches!(f, F::Or(_));
                let mut o = vec![];
                for x in v {
                    match self.simp(p, x)? {
                        SF::T(b) if b == or => return Some(SF::T(or)),
                        SF::T(_) => {}
                        s => o.push(s),
                    }
                }
                match o.len() {
                    0 => SF::T(!or),
                    1 => o.pop().unwrap(),
                    _ if or => SF::Or(o),
                    _ => SF::And(o),
                }
            }
            F::IEq(..) | F::ILt(..) => return None,
        })
    }
    fn emit_poly(&self, q: &Poly, p: usize, done: &mut BTreeSet<(u32, u32)>, s: &mut String) -> String {
        use std::fmt::Write;
        let mut terms = vec![];
        for (m, c) in &q.0 {
            let mut fs = vec![];
            for (v, e) in m {
                for k in 1..=*e {
                    if done.insert((*v, k)) {
                        let _ = match k {
                            1 => writeln!(s, "(declare-fun n{} () F)", v),
                            2 => writeln!(s, "(define-fun n{}_2 () F (ff.mul n{} n{}))", v, v, v),
                            k => writeln!(s, "(define-fun n{}_{} () F (ff.mul n{}_{} n{}))", v, k, v, k - 1, v),
                        };
                    }
                }
                fs.push(if *e == 1 { format!("n{}", v) } else { format!("n{}_{}", v, e) });
            }
            if !c.is_one() || fs.is_empty() {
                fs.push(format!("(as ff{} F)", c));
            }
            terms.push(if fs.len() == 1 { fs.pop().unwrap() } else { format!("(ff.mul {})", fs.join(" ")) });
        }
        let _ = p;
        match terms.len() {
            0 => "(as ff0 F)".into(),
            1 => terms.pop().unwrap(),
            _ => format!("(ff.add {})", terms.join(" ")),
        }
    }
    fn emit_sf(&self, f: &SF, p: usize, done: &mut BTreeSet<(u32, u32)>, bools: &mut BTreeSet<u32>, s: &mut String) -> String {
        match f {
            SF::A(q) => format!("(= {} (as ff0 F))", self.emit_poly(q, p, done, s)),
            SF::B(i) => {
                if bools.insert(*i) {
                    s.push_str(&format!("(declare-fun b{} () Bool)\n", i));
                }
                format!("b{}", i)
            }
            SF::T(b) => format!("{}", b),
            SF::Not(x) => format!("(not {})", self.emit_sf(x, p, done, bools, s)),
            SF::Or(v) | SF::And(v) => {
                let t: Vec<_> = v.iter().map(|x| self.emit_sf(x, p, done, bools, s)).collect();
                format!("({} {})", if matches!(f, SF::Or(_)) { "or false" } else { "and true" }, t.join(" "))
            }
        }
    }
    /// Text of the finite-field query "path condition (relevant part) and goal".
    /// `lvl`: 0 = equations only, 1 = everything; 2+k = equations and the k-th other item.
    fn ff_query(&mut self, p: usize, goal: &F, all: bool, lvl: usize) -> Query {
        self.sysm(p);
        let g = if self.nosimp || self.sys[p].off { None } else { self.simp(p, goal) };
        let g = match g {
            Some(g) => g,
            None => {
                let (s, need, n) = self.ff_query_raw(p, goal, all, lvl);
                return Query { text: s, vars: need, others: n, known: None, conds: vec![] };
            }
        };
        if let (SF::T(b), false) = (&g, all) {
            return Query { text: String::new(), vars: BTreeSet::new(), others: 0, known: Some(*b), conds: vec![] };
        }
        // premises
        let mut eqs: Vec<SF> = vec![];
        let m = self.primes[p].p.clone();
        for r in &self.sys[p].rules {
            if r.n > 1 || all {
                let mut t = Poly::var(r.v);
                if r.n > 1 {
                    t = t.pow(r.n, &m).unwrap();
                }
                eqs.push(SF::A(t.sub(&r.rest, &m)));
            }
        }
        for e in &self.sys[p].eqs {
            eqs.push(if e.as_const().is_some() { SF::T(false) } else { SF::A(e.clone()) });
        }
        let mut others: Vec<SF> = vec![];
        let gen = self.sys[p].gen;
        for i in 0..self.pc.len() {
            if self.pc[i].abs || Self::fprime(&self.pc[i].f) != Some(p) || Self::fint(&self.pc[i].f) {
                continue;
            }
            let ok = matches!(&self.pc[i].simp, Some((h, _)) if *h == gen);
            if !ok {
                let f = self.pc[i].f.clone();
                match self.simp(p, &f) {
                    Some(x) => self.pc[i].simp = Some((gen, x)),
                    None => {
                        // too large or mixed: drop the premise (weaker, still sound for unsat)
                        self.pc[i].simp = Some((gen, SF::T(true)))
                    }
                }
            }
            match &self.pc[i].simp {
                Some((_, SF::T(true))) => {}
                Some((_, x)) => others.push(x.clone()),
                None => {}
            }
        }
        // known nonzero values (assumed, or inverted on this path)
        for v in &self.sys[p].nz {
            others.push(SF::Not(Box::new(SF::A(Poly::var(*v)))));
        }
        for d in &self.sys[p].nzp {
            others.push(SF::Not(Box::new(SF::A(d.monic(&m)))));
        }
        let nothers = others.len();
        let mut conds = others.clone();
        let mut pool = eqs;
        match lvl {
            0 => {}
            1 => pool.extend(others),
            k => pool.extend(others.into_iter().skip(k - 2).take(1)),
        }
        let mut need = BTreeSet::new();
        g.vars(&mut need);
        let lv: Vec<BTreeSet<u32>> = pool
            .iter()
            .map(|x| {
                let mut o = BTreeSet::new();
                x.vars(&mut o);
                o
            })
            .collect();
        let mut inc = vec![false; pool.len()];
        loop {
            let mut ch = false;
            for i in 0..pool.len() {
                if !inc[i] && (all || lv[i].is_empty() || !lv[i].is_disjoint(&need)) {
                    inc[i] = true;
                    need.extend(lv[i].iter().copied());
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut s = format!("(set-logic QF_FF)\n(define-sort F () (_ FiniteField {}))\n", m);
        let (mut done, mut bools) = (BTreeSet::new(), BTreeSet::new());
        for (i, x) in pool.iter().enumerate() {
            if inc[i] {
                let t = self.emit_sf(x, p, &mut done, &mut bools, &mut s);
                s.push_str(&format!("(assert {})\n", t));
            }
        }
        let t = self.emit_sf(&g, p, &mut done, &mut bools, &mut s);
        s.push_str(&format!("(assert {})\n", t));
        conds.push(g);
        Query { text: s, vars: need, others: nothers, known: None, conds }
    }

    /// Generic n-way fork.
    fn fork(&mut self, n: u32, h: u64) -> u32 {
        if let Some(t) = self.replay(h, 0) {
            return t.val;
        }
        self.record(0, n, false, h, 0);
        0
    }
    pub fn choose(&mut self, name: &str, n: u32) -> u32 {
        let mut h = DefaultHasher::new();
        name.hash(&mut h);
        let v = self.fork(n, h.finish());
        self.choices.push((name.to_string(), v));
        v
    }
    /// Truth value of `f` on this path; forks when both are possible.
    pub fn decide(&mut self, f: F) -> bool {
        let f = match f {
            F::T(b) => return b,
            f => f,
        };
        self.stats.decisions += 1;
        let h = self.fhash(&f);
        if let Some(t) = self.replay(h, 0) {
            let b = t.val == 0;
            if t.n == 2 {
                let lit = if b { f } else { f.not() };
                self.learn(&lit);
                self.assume(lit);
            }
            return b;
        }
        if self.trace {
            let t = Self::fprime(&f).and_then(|p| self.simp(p, &f)).map(|s| format!("{:?}", s)).unwrap_or_default();
            eprintln!("  [decide {} {}]", self.show(&f), &t[..t.len().min(160)]);
        }
        let nf = f.clone().not();
        let (mut rn, mut rt) = (Res::Unknown, Res::Unknown);
        for stage in 0..3 {
            if rn == Res::Unknown {
                rn = self.feas_stage(&nf, stage);
                if rn == Res::Unsat {
                    self.record(0, 1, false, h, 0);
                    return true;
                }
            }
            if rt == Res::Unknown {
                rt = self.feas_stage(&f, stage);
                if rt == Res::Unsat {
                    self.record(1, 1, false, h, 0);
                    return false;
                }
            }
        }
        let weak = rt == Res::Unknown || rn == Res::Unknown;
        self.record(0, 2, weak, h, 0);
        if weak {
            self.weak_path = true;
        }
        self.learn(&f);
        self.assume(f);
        true
    }
    /// Fork on a literal both of whose values are known to be possible.
    fn branch(&mut self, f: F) -> bool {
        self.stats.decisions += 1;
        let h = self.fhash(&f);
        let b = self.fork(2, h) == 0;
        let lit = if b { f } else { f.not() };
        self.learn(&lit);
        self.assume(lit);
        b
    }
    /// Does the integer formula involve node x other than in a comparison of x itself with a constant?
    fn mentions_beyond(&self, f: &F, x: Id) -> bool {
        match f {
            F::IEq(a, b) | F::ILt(a, b) => {
                let c = |i: Id| matches!(self.nodes[i as usize].k, K::C(_));
                if (*a == x && c(*b)) || (*b == x && c(*a)) {
                    // an excluded interior value leaves the range intact for order questions
                    return false;
                }
                let mut st = vec![*a, *b];
                let mut seen = BTreeSet::new();
                while let Some(i) = st.pop() {
                    if i == x {
                        return true;
                    }
                    if !seen.insert(i) {
                        continue;
                    }
                    match &self.nodes[i as usize].k {
                        K::Add(a, b) | K::Mul(a, b) => {
                            st.push(*a);
                            st.push(*b);
                        }
                        K::Neg(a) | K::Mod(a, _) | K::Div(a, _) => st.push(*a),
                        _ => {}
                    }
                }
                false
            }
            F::Not(g) => self.mentions_beyond(g, x),
            F::Or(v) | F::And(v) => v.iter().any(|g| self.mentions_beyond(g, x)),
            _ => false,
        }
    }
    fn show_n(&self, i: Id, d: u32) -> String {
        if d == 0 {
            return format!("n{}", i);
        }
        match &self.nodes[i as usize].k {
            K::C(z) => {
                let t = z.to_string();
                if t.len() > 12 { format!("{}..", &t[..10]) } else { t }
            }
            K::Var(n) => n.clone(),
            K::Add(a, b) => format!("({} + {})", self.show_n(*a, d - 1), self.show_n(*b, d - 1)),
            K::Mul(a, b) => format!("({} * {})", self.show_n(*a, d - 1), self.show_n(*b, d - 1)),
            K::Neg(a) => format!("-{}", self.show_n(*a, d - 1)),
            K::Mod(a, m) => format!("({} % ..{})", self.show_n(*a, d - 1), m % 1000),
            K::Div(a, m) => format!("({} / {})", self.show_n(*a, d - 1), m),
        }
    }
    fn show(&self, f: &F) -> String {
        match f {
            F::FEq(_, a, b) => format!("{} == {}", self.show_n(*a, 5), self.show_n(*b, 5)),
            F::IEq(a, b) => format!("{} =i= {}", self.show_n(*a, 5), self.show_n(*b, 5)),
            F::ILt(a, b) => format!("{} < {}", self.show_n(*a, 5), self.show_n(*b, 5)),
            F::Not(x) => format!("not({})", self.show(x)),
            f => format!("{:?}", f),
        }
    }
    /// Narrow known ranges from a literal.
    fn learn(&mut self, f: &F) {
        let (neg, g) = match f {
            F::Not(x) => (true, &**x),
            x => (false, x),
        };
        let konst = |s: &Self, i: Id| match &s.nodes[i as usize].k {
            K::C(z) => Some(z.clone()),
            _ => None,
        };
        match g {
            F::ILt(a, b) => {
                let (a, b) = (*a, *b);
                if let Some(c) = konst(self, b) {
                    let (l, h) = self.rng(a);
                    let nr = if !neg {
                        let c: Z = c - 1;
                        (l, Some(h.map_or(c.clone(), |h| h.min(c))))
                    } else {
                        (Some(l.map_or(c.clone(), |l| l.max(c))), h)
                    };
                    self.over.insert(a, nr);
                } else if let Some(c) = konst(self, a) {
                    let (l, h) = self.rng(b);
                    let nr = if !neg {
                        let c: Z = c + 1;
                        (Some(l.map_or(c.clone(), |l| l.max(c))), h)
                    } else {
                        (l, Some(h.map_or(c.clone(), |h| h.min(c))))
                    };
                    self.over.insert(b, nr);
                }
            }
            F::IEq(a, b) if !neg => {
                let (a, b) = (*a, *b);
                if let Some(c) = konst(self, b) {
                    self.over.insert(a, (Some(c.clone()), Some(c)));
                } else if let Some(c) = konst(self, a) {
                    self.over.insert(b, (Some(c.clone()), Some(c)));
                }
            }
            F::IEq(a, b) => {
                for (x, y) in [(*a, *b), (*b, *a)] {
                    if let Some(c) = konst(self, y) {
                        let (l, h) = self.rng(x);
                        if l.as_ref() == Some(&c) {
                            self.over.insert(x, (Some(c + 1), h));
                        } else if h.as_ref() == Some(&c) {
                            self.over.insert(x, (l, Some(c - 1)));
                        }
                    }
                }
            }
            _ => {}
        }
    }

    // ---------------------------------------------------------------- comparisons
    fn diff_rng(&self, a: Id, b: Id) -> (Option<Z>, Option<Z>) {
        let (al, ah) = self.rng(a);
        let (bl, bh) = self.rng(b);
        (
            al.and_then(|x| bh.map(|y| x - y)),
            ah.and_then(|x| bl.map(|y| x - y)),
        )
    }
    /// A prime for which congruence coincides with equality for these two values.
    fn eq_prime(&self, a: Id, b: Id) -> Option<usize> {
        let (l, h) = self.diff_rng(a, b);
        let (l, h) = (l?, h?);
        let fits = |p: &Z| l > -p && &h < p;
        let m = |i: Id| match &self.nodes[i as usize].k {
            K::Mod(_, m) => Some(m.clone()),
            _ => None,
        };
        for r in [m(a), m(b)].into_iter().flatten() {
            if let Some(i) = self.primes.iter().position(|p| p.p == r) {
                if fits(&r) {
                    return Some(i);
                }
            }
        }
        // variables and the like: range tells which field they live in
        let isint = |i: Id| matches!(self.nodes[i as usize].k, K::Div(..));
        if isint(a) || isint(b) {
            return None;
        }
        (0..self.primes.len())
            .filter(|i| fits(&self.primes[*i].p))
            .min_by_key(|i| self.primes[*i].p.clone())
    }
    pub fn feq(&mut self, p: usize, a: Id, b: Id) -> F {
        let (x, y) = (self.falias(a, p), self.falias(b, p));
        if x == y {
            return F::T(true);
        }
        if let (K::C(u), K::C(v)) = (self.kind(x), self.kind(y)) {
            let m = &self.primes[p].p;
            return F::T((u - v).mod_floor(m).is_zero());
        }
        // what the known ranges settle
        if let (Some(l), Some(h)) = self.diff_rng(x, y) {
            let m = &self.primes[p].p;
            if l == h {
                return F::T(l.mod_floor(m).is_zero());
            }
            if l.is_positive() && l.div_floor(m) == h.div_floor(m) && !l.mod_floor(m).is_zero()
                || h.is_negative() && l.div_floor(m) == h.div_floor(m) && !l.mod_floor(m).is_zero()
            {
                return F::T(false);
            }
        }
        F::FEq(p, x.min(y), x.max(y))
    }
    pub fn eq(&mut self, a: &V, b: &V) -> bool {
        if let (V::C(x), V::C(y)) = (a, b) {
            return x == y;
        }
        let (i, j) = (self.id(a), self.id(b));
        if i == j {
            if self.in_check {
                self.identical(i);
            }
            return true;
        }
        let (l, h) = self.diff_rng(i, j);
        if l.is_some_and(|l| l.is_positive()) || h.is_some_and(|h| h.is_negative()) {
            return false;
        }
        // parity of a value
        for (x, y) in [(i, j), (j, i)] {
            if let (K::Mod(e, m), K::C(c)) = (self.kind(x), self.kind(y)) {
                if m == &Z::from(2) {
                    let (e, c) = (*e, c.clone());
                    let odd = self.parity(e);
                    return odd == c.is_one();
                }
            }
        }
        if let Some(p) = self.eq_prime(i, j) {
            let f = self.feq(p, i, j);
            return self.decide(f);
        }
        self.decide(F::IEq(i.min(j), i.max(j)))
    }
    fn lt_join(&mut self, i: Id, j: Id) -> Option<bool> {
        if let K::C(c) = self.kind(j) {
            let c = c.clone();
            return self.join_lt(i, &c);
        }
        if let K::C(c) = self.kind(i) {
            let c: Z = c + 1;
            return self.join_lt(j, &c).map(|b| !b);
        }
        let (a, b) = (self.v(i), self.v(j));
        match self.sub(&a, &b) {
            V::S(d) => {
                let (l, h) = self.rng(d);
                if l.map_or(true, |l| !l.is_negative()) || h.map_or(true, |h| h.is_negative()) {
                    return None;
                }
                self.join_lt(d, &Z::zero())
            }
            _ => None,
        }
    }
    pub fn lt(&mut self, a: &V, b: &V) -> bool {
        if let (V::C(x), V::C(y)) = (a, b) {
            return x < y;
        }
        let (i, j) = (self.id(a), self.id(b));
        if i == j {
            return false;
        }
        let (l, h) = self.diff_rng(i, j);
        if h.is_some_and(|h| h.is_negative()) {
            return true;
        }
        if l.is_some_and(|l| !l.is_negative()) {
            return false;
        }
        // a comparison that may only select a reduction
        if let Some(b) = self.lt_join(i, j) {
            return b;
        }
        let f = F::ILt(i, j);
        // an atom compared with constants only: its known range decides what is possible
        for (x, y) in [(i, j), (j, i)] {
            let atom = match self.kind(x) {
                K::Var(_) => true,
                K::Mod(_, m) => self.primes.iter().any(|p| &p.p == m),
                _ => false,
            };
            if atom && matches!(self.kind(y), K::C(_)) && !self.pc.iter().any(|it| Self::fint(&it.f) && self.mentions_beyond(&it.f, x)) {
                return self.branch(f);
            }
        }
        self.decide(f)
    }
    pub fn cmp(&mut self, a: &V, b: &V) -> std::cmp::Ordering {
        use std::cmp::Ordering::*;
        if let (V::C(x), V::C(y)) = (a, b) {
            return x.cmp(y);
        }
        if self.lt(a, b) {
            Less
        } else if self.eq(a, b) {
            Equal
        } else {
            Greater
        }
    }
    /// Small concrete value of a symbolic integer (forks over the range).
    pub fn concretize(&mut self, v: &V) -> Z {
        match v {
            V::C(z) => z.clone(),
            V::S(i) => {
                let (l, h) = self.rng(*i);
                let (l, h) = match (l, h) {
                    (Some(l), Some(h)) if &h - &l <= Z::from(64) => (l, h),
                    _ => {
                        // maybe a small value in disguise
                        unsupported("concrete machine value of a wide symbolic integer")
                    }
                };
                let mut c = l;
                while c < h {
                    if self.eq(v, &V::C(c.clone())) {
                        return c;
                    }
                    c += 1;
                }
                h
            }
        }
    }

    // ---------------------------------------------------------------- parity
    /// true when odd
    pub fn parity(&mut self, id: Id) -> bool {
        match self.kind(id).clone() {
            K::C(z) => z.is_odd(),
            K::Neg(a) => self.parity(a),
            K::Add(a, b) => self.parity(a) ^ self.parity(b),
            K::Mul(a, b) => {
                // no short-circuit: keeps re-execution simple
                let x = self.parity(a);
                let y = self.parity(b);
                x & y
            }
            K::Mod(e, m) if m.is_even() => self.parity(e),
            K::Mod(_, m) if self.primes.iter().any(|p| p.p == m) => {
                let p = self.primes.iter().position(|q| q.p == m).unwrap();
                self.parity_atom(p, id)
            }
            K::Var(_) => {
                if let (Some(l), Some(h)) = self.rng(id) {
                    if l == h {
                        return l.is_odd();
                    }
                }
                // which field does it live in?
                for p in 0..self.primes.len() {
                    let h = &self.primes[p].p - 1;
                    // (the declared range, not what comparisons made of it)
                    let (l, hh) = (self.nodes[id as usize].lo.clone(), self.nodes[id as usize].hi.clone());
                    if l.is_some_and(|l| l.is_zero()) && hh.is_some_and(|x| x == h) {
                        return self.parity_atom(p, id);
                    }
                }
                let two = Z::from(2);
                let i = self.mk(K::Mod(id, two));
                let z = self.mk(K::C(Z::one()));
                self.decide(F::IEq(i.min(z), i.max(z)))
            }
            _ => {
                let two = Z::from(2);
                let i = self.mk(K::Mod(id, two));
                let z = self.mk(K::C(Z::one()));
                self.decide(F::IEq(i.min(z), i.max(z)))
            }
        }
    }
    fn negid(&mut self, a: Id) -> Id {
        let v = self.v(a);
        let n = self.neg(&v);
        self.id(&n)
    }
    fn parity_atom(&mut self, p: usize, id: Id) -> bool {
        // canonical residue of `id` modulo p
        if let Some(z) = self.kst(p, id) {
            return z.is_odd();
        }
        let a = self.falias(id, p);
        let zero = self.mk(K::C(Z::zero()));
        let na = self.negid(a);
        let na = self.falias(na, p);
        for i in 0..self.pars.len() {
            let (q, u, val) = (self.pars[i].p, self.pars[i].v, self.pars[i].val);
            if q != p {
                continue;
            }
            if self.falias(u, p) == a {
                return val;
            }
        }
        let z = self.feq(p, a, zero);
        if self.entails(&z) {
            return false;
        }
        for i in 0..self.pars.len() {
            let (q, u, val) = (self.pars[i].p, self.pars[i].v, self.pars[i].val);
            if q != p {
                continue;
            }
            let f = self.feq(p, a, u);
            if self.entails(&f) {
                return val;
            }
            let f = self.feq(p, na, u);
            if self.entails(&f) {
                // a = -u: opposite parity unless zero
                if self.decide(z.clone()) {
                    return false;
                }
                return !val;
            }
        }
        let odd = self.fork(2, self.nodes[a as usize].h ^ 1) == 0;
        if odd {
            self.assume(z.clone().not());
        }
        for i in 0..self.pars.len() {
            let (q, u, val) = (self.pars[i].p, self.pars[i].v, self.pars[i].val);
            if q != p {
                continue;
            }
            if val != odd {
                let f = self.feq(p, a, u);
                self.assume(f.not());
            } else {
                let f = self.feq(p, na, u);
                self.assume(F::Or(vec![f.not(), z.clone()]));
            }
        }
        self.pars.push(ParCls { p, v: a, val: odd });
        odd
    }

    // ---------------------------------------------------------------- quadratic character
    fn chi_const(&self, p: usize, z: &Z) -> bool {
        let m = &self.primes[p].p;
        z.mod_floor(m).modpow(&((m - 1) / 2), m).is_one()
    }
    fn factor(&self, id: Id, p: usize, c: &mut Z, m: &mut HashMap<Id, u32>, depth: u32) {
        let id = self.falias(id, p);
        match &self.nodes[id as usize].k {
            K::C(z) => *c = (&*c * z).mod_floor(&self.primes[p].p),
            K::Neg(a) => {
                *c = (-&*c).mod_floor(&self.primes[p].p);
                self.factor(*a, p, c, m, depth)
            }
            K::Mul(a, b) if depth < 40 => {
                self.factor(*a, p, c, m, depth + 1);
                self.factor(*b, p, c, m, depth + 1);
            }
            _ => {
                // inverse variables have the character of what they invert
                for (q, x, w) in &self.invs {
                    if *q == p && *w == id {
                        return self.factor(*x, p, c, m, depth + 1);
                    }
                }
                *m.entry(id).or_insert(0) += 1
            }
        }
    }
    /// Is the (nonzero) residue a square?  Forks when not determined.
    pub fn chi(&mut self, p: usize, id: Id) -> bool {
        if let Some(z) = self.kst(p, id) {
            return self.chi_const(p, &z);
        }
        if self.primes[p].p.bits() <= 5 {
            // tiny field: the squares are listed
            let m = self.primes[p].p.clone();
            let n = m.to_u32_digits().1[0];
            let sq: BTreeSet<u32> = (1..n).map(|i| i * i % n).collect();
            let fs: Vec<F> = sq
                .into_iter()
                .map(|k| {
                    let c = self.mk(K::C(Z::from(k)));
                    self.feq(p, id, c)
                })
                .collect();
            if fs.iter().any(|f| *f == F::T(true)) {
                return true;
            }
            let fs: Vec<F> = fs.into_iter().filter(|f| *f != F::T(false)).collect();
            if fs.is_empty() {
                return false;
            }
            return self.decide(F::Or(fs));
        }
        // the whole value may be a known square even when its factors are of unknown character
        for i in 0..self.hints.len() {
            let (q, v, _) = self.hints[i];
            if q == p {
                let f = self.feq(p, id, v);
                if self.simplified_true(p, &f) {
                    return true;
                }
            }
        }
        for i in 0..self.wholes.len() {
            let (q, v, val) = self.wholes[i];
            if q == p {
                let f = self.feq(p, id, v);
                if self.simplified_true(p, &f) {
                    return val;
                }
            }
        }
        for i in 0..self.prods.len() {
            let (q, v, w) = self.prods[i];
            if q == p {
                let f = self.feq(p, id, v);
                if self.simplified_true(p, &f) {
                    let save = std::mem::take(&mut self.prods);
                    let r = self.chi(p, w);
                    self.prods = save;
                    self.wholes.push((p, id, r));
                    return r;
                }
            }
        }
        let mut c = Z::one();
        let mut m = HashMap::new();
        self.factor(id, p, &mut c, &mut m, 0);
        let many = m.len() > 1;
        let mut s = self.chi_const(p, &c);
        let mut fs: Vec<Id> = m.into_iter().filter(|(_, n)| n % 2 == 1).map(|x| x.0).collect();
        fs.sort();
        for a in fs {
            if !self.chi_atom(p, a) {
                s = !s
            }
        }
        if many {
            self.wholes.push((p, id, s));
        }
        s
    }
    fn simplified_true(&mut self, p: usize, f: &F) -> bool {
        match f {
            F::T(b) => *b,
            f => matches!(self.simp(p, f), Some(SF::T(true))),
        }
    }
    fn chi_atom(&mut self, p: usize, a: Id) -> bool {
        for i in 0..self.chis.len() {
            if self.chis[i].p == p && self.chis[i].v == a {
                return self.chis[i].val;
            }
        }
        // known squares supplied with their roots
        for i in 0..self.hints.len() {
            let (q, v, _) = self.hints[i];
            if q == p {
                let f = self.feq(p, a, v);
                if self.entails(&f) {
                    return true;
                }
            }
        }
        let na = self.negid(a);
        let m1 = self.chi_const(p, &Z::from(-1));
        for i in 0..self.hints.len() {
            let (q, v, _) = self.hints[i];
            if q == p {
                let f = self.feq(p, na, v);
                if self.entails(&f) {
                    return m1;
                }
            }
        }
        for i in 0..self.chis.len() {
            if self.chis[i].p != p {
                continue;
            }
            let (v, val) = (self.chis[i].v, self.chis[i].val);
            let f = self.feq(p, a, v);
            if self.entails(&f) {
                return val;
            }
            let f = self.feq(p, na, v);
            if self.entails(&f) {
                return val ^ !m1;
            }
        }
        // values known to equal a product / a multiple of a square
        for i in 0..self.prods.len() {
            let (q, v, w) = self.prods[i];
            if q == p {
                let f = self.feq(p, a, v);
                if self.entails(&f) {
                    // avoid looping through the same rule
                    let save = std::mem::take(&mut self.prods);
                    let r = self.chi(p, w);
                    self.prods = save;
                    return r;
                }
            }
        }
        let sq = self.fork(2, self.nodes[a as usize].h ^ 2) == 0;
        self.chis.push(ChiCls { p, v: a, val: sq });
        sq
    }

    // ---------------------------------------------------------------- powers and inverses
    fn fmul(&mut self, p: usize, a: Id, b: Id) -> Id {
        let m = self.primes[p].p.clone();
        let (x, y) = (self.v(a), self.v(b));
        let t = self.mul(&x, &y);
        let t = self.modf(&t, &m);
        self.id(&t)
    }
    fn fpow_small(&mut self, p: usize, a: Id, n: u32) -> Id {
        let mut r = self.mk(K::C(Z::one()));
        let mut first = true;
        for i in (0..32 - n.leading_zeros()).rev() {
            if !first {
                r = self.fmul(p, r, r);
            }
            if (n >> i) & 1 == 1 {
                r = if first { a } else { self.fmul(p, r, a) };
                first = false;
            }
        }
        r
    }
    /// Inverse of a value known to be nonzero on this path.
    pub fn inverse(&mut self, p: usize, a: Id) -> Id {
        let m = self.primes[p].p.clone();
        let al = self.falias(a, p);
        if let K::C(z) = self.kind(al) {
            let z = z.mod_floor(&m);
            let r = z.modpow(&(&m - 2), &m);
            return self.mk(K::C(r));
        }
        for (q, x, w) in &self.invs {
            if *q == p && *x == al {
                return *w;
            }
        }
        if let Some(z) = self.kst(p, al) {
            let r = z.modpow(&(&m - 2), &m);
            return self.mk(K::C(r));
        }
        let w = self.fresh_var("inv", p);
        let pr = self.fmul(p, al, w);
        let one = self.mk(K::C(Z::one()));
        let f = self.feq(p, pr, one);
        self.invs.push((p, al, w));
        if !self.nosimp {
            match self.nf(p, al) {
                Some(d) => {
                    let m = self.primes[p].p.clone();
                    match self.sysm(p).atom((*d).clone(), &m) {
                        Some(q) => self.sysm(p).note_nz(q),
                        None => self.sysm(p).off = true,
                    }
                    self.sysm(p).invs.push((w, (*d).clone()))
                }
                None => self.sysm(p).off = true,
            }
        }
        self.define(f, p, w);
        w
    }
    pub fn modpow(&mut self, x: &V, e: &V, m: &V) -> V {
        let m = match m {
            V::C(m) => m.clone(),
            _ => unsupported("modpow with symbolic modulus"),
        };
        let e = match e {
            V::C(e) => e.clone(),
            V::S(_) => return self.modpow_sym(x, e, &m),
        };
        if let V::C(x) = x {
            return V::C(x.modpow(&e, &m));
        }
        if m.is_zero() || e.is_negative() {
            panic!("modpow: divide by zero / negative exponent")
        }
        if e.is_zero() {
            return V::C(Z::one().mod_floor(&m));
        }
        let xr = self.modf(x, &m);
        let xi = match &xr {
            V::C(x) => return V::C(x.modpow(&e, &m)),
            V::S(i) => *i,
        };
        let p = match self.note_prime(&m) {
            Some(p) => p,
            None => unsupported("modpow modulo a composite"),
        };
        let tiny = m.bits() <= 8;
        if e <= Z::from(16) && !(tiny && e > Z::from(2)) {
            let n = e.to_u32_digits().1[0];
            let r = self.fpow_small(p, xi, n);
            return self.v(r);
        }
        if let Some(z) = self.kst(p, xi) {
            return V::C(z.modpow(&e, &m));
        }
        let zero = self.mk(K::C(Z::zero()));
        let f = self.feq(p, xi, zero);
        if self.decide(f) {
            return V::C(Z::zero());
        }
        let r = self.pow_nonzero(p, xi, &e);
        self.v(r)
    }
    /// x^e mod m for a symbolic exponent: an uninterpreted function of the base and of e mod (m-1).
    fn modpow_sym(&mut self, x: &V, e: &V, m: &Z) -> V {
        let zero = V::C(Z::zero());
        if self.lt(e, &zero) {
            panic!("modpow: negative exponent")
        }
        let p = match self.note_prime(m) {
            Some(p) => p,
            None => unsupported("modpow modulo a composite"),
        };
        let xr = self.modf(x, m);
        if self.eq(&xr, &zero) {
            let z = self.eq(e, &zero);
            return V::C(if z { Z::one() } else { Z::zero() });
        }
        let en = self.modf(e, &(m - 1));
        let en = match en {
            V::C(z) => return self.modpow(&xr, &V::C(z), &V::C(m.clone())),
            V::S(i) => i,
        };
        let xi = self.id(&xr);
        let xa = self.falias(xi, p);
        for i in 0..self.powxs.len() {
            let (q, b, f, r) = (self.powxs[i].p, self.powxs[i].base, self.powxs[i].e, self.powxs[i].r);
            if q != p {
                continue;
            }
            let fe = self.feq(p, xa, b);
            if b != xa && !self.entails(&fe) {
                continue;
            }
            if f == en || self.entails(&F::IEq(f, en)) {
                return self.v(r);
            }
        }
        let r = self.fresh_var("pow", p);
        let zi = self.mk(K::C(Z::zero()));
        let f = self.feq(p, r, zi).not();
        self.define(f, p, r);
        self.unint = true;
        self.powxs.push(PowxMemo { p, base: xa, e: en, r });
        self.v(r)
    }
    fn pow_nonzero(&mut self, p: usize, x: Id, e: &Z) -> Id {
        let m = self.primes[p].p.clone();
        let n = &m - 1;
        let e = e.mod_floor(&n);
        let half: Z = &n / 2;
        let small = |z: &Z| -> Option<i32> {
            let z = z.mod_floor(&n);
            for j in (0..=16i32).flat_map(|j| [j, -j]) {
                if (Z::from(j)).mod_floor(&n) == z {
                    return Some(j);
                }
            }
            None
        };
        let pw = |s: &mut Self, j: i32| -> Id {
            if j >= 0 {
                if j == 0 {
                    s.mk(K::C(Z::one()))
                } else {
                    s.fpow_small(p, x, j as u32)
                }
            } else {
                let w = s.inverse(p, x);
                s.fpow_small(p, w, (-j) as u32)
            }
        };
        if e == half {
            let sq = self.chi(p, x);
            let one = self.mk(K::C(Z::one()));
            return if sq { one } else { self.fneg(p, one) };
        }
        if let Some(j) = small(&e) {
            return pw(self, j);
        }
        if let Some(j) = small(&(&e - &half)) {
            let sq = self.chi(p, x);
            let t = pw(self, j);
            return if sq { t } else { self.fneg(p, t) };
        }
        let mut found = None;
        'o: for i in [2u32, 4, 8, 16, 3, 5, 6] {
            for c in 0..2 {
                let t = &e * i - if c == 1 { half.clone() } else { Z::zero() };
                if let Some(j) = small(&t) {
                    found = Some((i, j, c));
                    break 'o;
                }
            }
        }
        // powers that differ by a small one share their root
        if let Some((i, j, _)) = found {
            let k = j.div_euclid(i as i32);
            if k != 0 && j.rem_euclid(i as i32) != 0 {
                let t = self.pow_nonzero(p, x, &(&e - k));
                let s = pw(self, k);
                return self.fmul(p, t, s);
            }
        }
        // x = q^2 with q known: x^e = q^(2e)
        let e2: Z = (&e * 2i32).mod_floor(&n);
        if small(&e2).is_some() || small(&(&e2 - &half)).is_some() {
            for i in 0..self.hints.len() {
                let (pp, v, q) = self.hints[i];
                if pp == p {
                    let f = self.feq(p, x, v);
                    if self.simplified_true(p, &f) {
                        return self.pow_nonzero(p, q, &e2);
                    }
                }
            }
        }
        let xa = self.falias(x, p);
        for i in 0..self.pows.len() {
            if self.pows[i].p == p && self.pows[i].e == e && self.pows[i].base == xa {
                return self.pows[i].r;
            }
        }
        for i in 0..self.pows.len() {
            if self.pows[i].p == p && self.pows[i].e == e {
                let (b, r) = (self.pows[i].base, self.pows[i].r);
                let f = self.feq(p, xa, b);
                if self.entails(&f) {
                    return r;
                }
            }
        }
        let r = self.fresh_var("pow", p);
        let zero = self.mk(K::C(Z::zero()));
        match found {
            Some((i, j, c)) => {
                let mut rhs = pw(self, j);
                if c == 1 && !self.chi(p, x) {
                    rhs = self.fneg(p, rhs);
                }
                let lhs = self.fpow_small(p, r, i);
                let f = self.feq(p, lhs, rhs);
                let nz = self.feq(p, r, zero).not();
                self.define(F::And(vec![f, nz]), p, r);
            }
            None => {
                let f = self.feq(p, r, zero).not();
                self.define(f, p, r);
                self.unint = true;
            }
        }
        self.pows.push(PowMemo {
            p,
            base: xa,
            e: e.clone(),
            r,
        });
        r
    }
    fn fneg(&mut self, p: usize, a: Id) -> Id {
        let m = self.primes[p].p.clone();
        let v = self.v(a);
        let v = self.neg(&v);
        let v = self.modf(&v, &m);
        self.id(&v)
    }

    // ---------------------------------------------------------------- bytes
    /// Number of bytes of a symbolic nonnegative value (forks).
    pub fn byte_len(&mut self, v: &V) -> usize {
        let i = match v {
            V::C(z) => return ((z.bits() + 7) / 8).max(1) as usize,
            V::S(i) => *i,
        };
        let (_, h) = self.rng(i);
        let h = match h {
            Some(h) => h,
            None => unsupported("bytes of an unbounded integer"),
        };
        let mut n = (h.bits() as usize + 7) / 8;
        let full = n;
        while n > 1 {
            let bound = Z::one() << (8 * (n - 1));
            if !self.lt(v, &V::C(bound)) {
                break;
            }
            n -= 1;
            if !self.all_lens && n + 2 == full && n > 4 {
                // stated bound: zero, one or two leading zero bytes, or a single byte
                if self.lt(v, &V::C(Z::one() << (8 * (n - 1)))) {
                    if !self.lt(v, &V::C(Z::from(256))) {
                        self.stats.excluded += 1;
                        abort(Abort::Dead);
                    }
                    n = 1;
                }
                break;
            }
        }
        n
    }
    /// Give up a path outside the stated bounds.
    pub fn exclude(&mut self) -> ! {
        self.stats.excluded += 1;
        abort(Abort::Dead)
    }
    pub fn token(&mut self, v: &V, n: usize) -> Vec<u8> {
        // big-endian bytes standing for the value; recognised again by `untoken`
        let i = self.id(v);
        if n < 4 {
            // short values: a rarely used leading byte tells them apart
            let seq = self.toks.keys().filter(|k| k.len() < 4).count();
            if let Some((k, _)) = self.toks.iter().find(|(k, j)| k.len() == n && **j == i) {
                return k.clone();
            }
            if seq > 60 {
                unsupported("too many short values")
            }
            let mut b = vec![0x5A; n];
            b[0] = 0x21 + seq as u8;
            self.toks.insert(b.clone(), i);
            return b;
        }
        let mut b = vec![0u8; n];
        b[0] = 1;
        b[1] = 0xA5;
        let k = i.to_be_bytes();
        let w = (n - 2).min(4);
        for t in 0..w {
            b[n - 1 - t] = k[3 - t];
        }
        if w < 4 && i >= 1 << (8 * w) {
            unsupported("token space")
        }
        for t in 2..n - w {
            b[t] = 0x5A ^ (t as u8);
        }
        self.toks.insert(b.clone(), i);
        b
    }
    pub fn untoken(&mut self, be: &[u8]) -> Option<V> {
        if self.toks.is_empty() {
            return None;
        }
        let s = be.iter().position(|x| *x != 0).unwrap_or(be.len());
        let be = &be[s..];
        if be.is_empty() {
            return None;
        }
        if let Some(i) = self.toks.get(be) {
            let i = *i;
            return Some(self.v(i));
        }
        // plain leading bytes before a whole token
        for s in 1..be.len() {
            if let Some(i) = self.toks.get(&be[s..]) {
                let (i, n) = (*i, be.len() - s);
                let v = self.v(i);
                let hi = Z::from_bytes_be(real::Sign::Plus, &be[..s]);
                return Some(self.add(&v, &V::C(hi << (8 * n))));
            }
        }
        if be.len() >= 2 && be[0] & 0x80 != 0 {
            let mut c = be.to_vec();
            c[0] &= 0x7f;
            if let Some(i) = self.toks.get(&c) {
                let i = *i;
                let v = self.v(i);
                let add = V::C(Z::one() << (8 * be.len() - 1));
                return Some(self.add(&v, &add));
            }
        }
        // reversed token or a fragment of one: do not silently treat as data
        let rev: Vec<u8> = be.iter().rev().copied().collect();
        let touches = self.toks.keys().filter(|t| t.len() >= 4).any(|t| {
            let key = &t[..];
            be.windows(key.len().min(be.len())).any(|w| w == &key[..w.len()])
                || (rev.len() >= 4 && rev.starts_with(&key[..4]))
                || (be.len() >= 4 && be.len() < key.len() && key.ends_with(be))
        });
        if touches {
            let n = format!("_bytes{}", self.fresh);
            self.fresh += 1;
            let hi = (Z::one() << (8 * be.len())) - 1;
            self.weak_path = true;
            return Some(self.var(&n, Some(Z::zero()), Some(hi)));
        }
        None
    }

    // ---------------------------------------------------------------- checks
    fn parse_model(&self, out: &[String]) -> HashMap<String, Z> {
        let txt = out[1..].join(" ");
        let mut m = HashMap::new();
        // pairs "(n12 #f5m101)" or "(n12 (as ff5 F))" or "(n12 5)" / "(n12 (- 5))"
        let toks: Vec<String> = txt
            .replace('(', " ( ")
            .replace(')', " ) ")
            .split_whitespace()
            .map(|s| s.to_string())
            .collect();
        let mut i = 0;
        while i + 1 < toks.len() {
            if toks[i].starts_with('n') && toks[i][1..].chars().all(|c| c.is_ascii_digit()) {
                let name = toks[i].clone();
                let mut j = i + 1;
                let mut neg = false;
                let mut val = None;
                while j < toks.len() && j < i + 6 {
                    let t = &toks[j];
                    if t == "(" || t == "as" || t == "_" {
                    } else if t == "-" {
                        neg = true
                    } else if let Some(r) = t.strip_prefix("ff") {
                        val = r.parse::<Z>().ok();
                        break;
                    } else if let Some(r) = t.strip_prefix("#f") {
                        val = r.split('m').next().and_then(|x| x.parse::<Z>().ok());
                        break;
                    } else if let Ok(z) = t.parse::<Z>() {
                        val = Some(z);
                        break;
                    } else {
                        break;
                    }
                    j += 1;
                }
                if let Some(v) = val {
                    m.insert(name, if neg { -v } else { v });
                }
                i = j;
            }
            i += 1;
        }
        m
    }
    fn model(&mut self) -> (Vec<(String, Z)>, bool) {
        if !self.nosimp {
            if let Some(a) = self.full_model() {
                let out = self.vars.iter().filter(|v| !v.0.starts_with('_')).map(|(n, i)| (n.clone(), a[i].clone())).collect();
                return (out, self.unint);
            }
        }
        let mut res: HashMap<Id, Z> = HashMap::new();
        let mut weak = self.weak_path || self.unint;
        // characters become existential square roots here
        let mut extra = vec![];
        let chis: Vec<(usize, Id, bool)> = self.chis.iter().map(|c| (c.p, c.v, c.val)).collect();
        for (p, v, val) in chis {
            let s = self.fresh_var("root", p);
            let mut sq = self.fmul(p, s, s);
            if !val {
                let nu = self.primes[p].nu.clone();
                let nu = self.mk(K::C(nu));
                sq = self.fmul(p, nu, sq);
            }
            let f = self.feq(p, v, sq);
            extra.push((p, f));
        }
        for p in 0..self.primes.len() {
            let base = self.pc.len();
            self.sysm(p);
            let save = self.sys[p].clone();
            for (q, f) in &extra {
                if *q == p {
                    self.push(f.clone(), None);
                }
            }
            let mut got = false;
            for withx in [true, false] {
                if !withx {
                    self.pc.truncate(base);
                    self.sys[p] = save.clone();
                    self.sys[p].gen += 1 << 32;
                    self.nfm.clear();
                }
                let q = self.ff_query(p, &F::T(true), true, 1);
                let (q, need) = (q.text, q.vars);
                let vars: Vec<Id> = need
                    .into_iter()
                    .filter(|i| matches!(self.kind(*i), K::Var(_)))
                    .collect();
                if vars.is_empty() {
                    got = true;
                    break;
                }
                let tail = format!(
                    "(get-value ({}))\n",
                    vars.iter()
                        .map(|i| format!("n{}", i))
                        .collect::<Vec<_>>()
                        .join(" ")
                );
                let ms = self.check_timeout_ms.min(20_000);
                let (r, out) = self.raw(&q, &tail, ms);
                if r == Res::Sat {
                    let m = self.parse_model(&out);
                    for v in vars {
                        if let Some(z) = m.get(&format!("n{}", v)) {
                            res.entry(v).or_insert(z.clone());
                        }
                    }
                    got = true;
                    break;
                }
                if r == Res::Unsat && !withx {
                    break;
                }
            }
            self.pc.truncate(base);
            if !got {
                weak = true
            }
        }
        // integer part
        let mut ints = BTreeSet::new();
        for it in &self.pc {
            if Self::fint(&it.f) {
                let mut st = vec![it.f.clone()];
                while let Some(f) = st.pop() {
                    match f {
                        F::IEq(a, b) | F::ILt(a, b) => {
                            let mut ns = vec![a, b];
                            while let Some(n) = ns.pop() {
                                match self.kind(n) {
                                    K::Add(a, b) | K::Mul(a, b) => {
                                        ns.push(*a);
                                        ns.push(*b)
                                    }
                                    K::Neg(a) | K::Mod(a, _) | K::Div(a, _) => ns.push(*a),
                                    K::Var(_) => {
                                        ints.insert(n);
                                    }
                                    _ => {}
                                }
                            }
                        }
                        F::Not(x) => st.push(*x),
                        F::Or(v) | F::And(v) => st.extend(v),
                        _ => {}
                    }
                }
            }
        }
        if !ints.is_empty() {
            let mut q = self.int_query(&F::T(true));
            let mut done = BTreeSet::new();
            let mut pre = String::new();
            for i in &ints {
                if !q.contains(&format!("n{} ()", i)) {
                    self.emit_int(*i, &mut done, &mut pre);
                }
            }
            q.push_str(&pre);
            let tail = format!(
                "(get-value ({}))\n",
                ints.iter()
                    .map(|i| format!("n{}", i))
                    .collect::<Vec<_>>()
                    .join(" ")
            );
            let (r, out) = self.raw(&q, &tail, 10_000);
            if r == Res::Sat {
                let m = self.parse_model(&out);
                for v in ints {
                    if let Some(z) = m.get(&format!("n{}", v)) {
                        if res.insert(v, z.clone()).is_some_and(|o| &o != z) {
                            weak = true
                        }
                    }
                }
            } else {
                weak = true
            }
        }
        let mut out = vec![];
        for (n, i) in &self.vars {
            if n.starts_with('_') {
                continue;
            }
            let z = res.get(i).cloned().unwrap_or_else(|| {
                let (l, h) = self.rng(*i);
                l.or(h).unwrap_or_default()
            });
            out.push((n.clone(), z));
        }
        // a model of the parts is one of the whole only if it satisfies the whole
        if !weak {
            let mut a = res;
            for (n, i) in &self.vars {
                if let Some((_, z)) = out.iter().find(|o| &o.0 == n) {
                    a.insert(*i, z.clone());
                }
            }
            weak = !self.full_ok(&a);
        }
        (out, weak)
    }
    /// Variables the solved equations pin to finitely many residues: (variable, its possible values).
    fn pinned(&mut self) -> Vec<(usize, Id, Vec<Z>)> {
        let mut out = vec![];
        for p in 0..self.sys.len() {
            if self.sys[p].off {
                continue;
            }
            let m = self.primes[p].p.clone();
            for r in self.sys[p].rules.clone() {
                let mut vs = BTreeSet::new();
                r.rest.vars(&mut vs);
                vs.remove(&r.v);
                if !vs.is_empty() || r.n > 4 || !matches!(self.kind(r.v), K::Var(_)) {
                    continue;
                }
                let mut cs = r.rest.neg(&m).coeffs(r.v).iter().map(|c| c.as_const().unwrap()).collect::<Vec<_>>();
                cs.resize(r.n as usize, Z::zero());
                cs.push(Z::one());
                if let Some(roots) = crate::poly::roots(&cs, &m) {
                    out.push((p, r.v, roots));
                }
            }
        }
        out
    }
    /// Is some fact of this path false outright, now that its values are constants?
    fn refuted(&mut self) -> bool {
        let konst = |s: &mut Self, p: usize, id: Id| -> Option<Z> {
            let q = s.nf(p, id)?;
            let m = s.primes[p].p.clone();
            let q = s.sys[p].reduce((*q).clone(), &m)?;
            if let Some(z) = q.as_const() {
                return Some(z.mod_floor(&m));
            }
            // a constant behind inverse variables: guess it at a random point, then verify exactly
            let sy = &s.sys[p];
            let mut vs = BTreeSet::new();
            q.vars(&mut vs);
            if !vs.iter().any(|v| sy.invs.iter().any(|i| i.0 == *v)) {
                return None;
            }
            for (_, d) in &sy.invs {
                d.vars(&mut vs);
            }
            let mut rr = Rng(0x1234567);
            let mut a = Asg::new();
            for v in &vs {
                if !sy.invs.iter().any(|i| i.0 == *v) {
                    a.insert(*v, rr.below(&m));
                }
            }
            for (w, d) in &sy.invs {
                if let Some(x) = d.eval(&a, &m) {
                    a.insert(*w, x.modpow(&(&m - 2), &m));
                }
            }
            let z = q.eval(&a, &m)?;
            let d = sy.atom(q.sub(&Poly::konst(&z, &m), &m), &m)?;
            if d.0.is_empty() { Some(z) } else { None }
        };
        for p in 0..self.sys.len() {
            if self.sys[p].off {
                continue;
            }
            let m = self.primes[p].p.clone();
            // ranges of residues
            let ids: Vec<Id> = self.over.keys().copied().collect();
            for id in ids.into_iter().chain(self.vars.iter().map(|v| v.1).collect::<Vec<_>>()) {
                let inp = match self.kind(id) {
                    K::Mod(_, mm) => *mm == m,
                    K::Var(_) => {
                        let b = self.nodes[id as usize].hi.clone();
                        b.is_some_and(|b| b < m)
                    }
                    _ => false,
                };
                if !inp {
                    continue;
                }
                let (l, h) = self.rng(id);
                if let Some(z) = konst(self, p, id) {
                    if l.is_some_and(|l| z < l) || h.is_some_and(|h| z > h) {
                        return true;
                    }
                }
            }
            for i in 0..self.pars.len() {
                let c = (self.pars[i].p, self.pars[i].v, self.pars[i].val);
                if c.0 == p && konst(self, p, c.1).is_some_and(|z| z.is_odd() != c.2) {
                    return true;
                }
            }
            for i in 0..self.chis.len() {
                let c = (self.chis[i].p, self.chis[i].v, self.chis[i].val);
                if c.0 == p && konst(self, p, c.1).is_some_and(|z| !z.is_zero() && self.chi_const(p, &z) != c.2) {
                    return true;
                }
            }
        }
        let fs: Vec<F> = self.pc.iter().map(|i| i.f.clone()).collect();
        for f in fs {
            if let Some(p) = Self::fprime(&f) {
                if p < self.sys.len() && !self.sys[p].off && matches!(self.simp(p, &f), Some(SF::T(false))) {
                    return true;
                }
            }
        }
        (0..self.sys.len()).any(|p| self.feas_ff(p, &F::T(true), 0) == Res::Unsat)
    }
    /// Pinned values decide questions (parity, size) the field theory cannot see: split on them.
    fn pinned_out(&mut self) -> bool {
        let pins: Vec<_> = self.pinned().into_iter().filter(|x| !x.2.is_empty()).collect();
        if self.pinned().iter().any(|x| x.2.is_empty()) {
            return true;
        }
        let total: usize = pins.iter().map(|x| x.2.len()).product();
        if pins.is_empty() || total > 64 {
            return false;
        }
        let base = self.pc.len();
        let save = self.sys.clone();
        let mut alive = false;
        for c in 0..total {
            let mut k = c;
            let mut out = false; // beyond the known range
            for (p, v, rs) in &pins {
                let z = rs[k % rs.len()].clone();
                k /= rs.len();
                let z = self.mk(K::C(z));
                let f = self.feq(*p, *v, z);
                out |= f == F::T(false);
                self.push(f, None);
            }
            let r = out || self.refuted();
            self.pc.truncate(base);
            self.sys = save.clone();
            for s in &mut self.sys {
                s.gen += (c as u64 + 1) << 32;
            }
            self.nfm.clear();
            if !r {
                alive = true;
                break;
            }
        }
        !alive
    }
    pub fn violation(&mut self, msg: &str) -> ! {
        if self.trace {
            eprintln!("  [violation {}]", msg);
            for it in &self.pc {
                eprintln!("    pc {}", self.show(&it.f));
            }
            for c in &self.pars {
                eprintln!("    odd {} = {}", self.show_n(c.v, 5), c.val);
            }
            for c in &self.chis {
                eprintln!("    square {} = {}", self.show_n(c.v, 5), c.val);
            }
        }
        self.vmsg = Some(msg.to_string());
        if self.verifying || self.pinned_out() {
            abort(Abort::Dead)
        }
        self.in_check = true;
        let (model, weak) = self.model();
        self.in_check = false;
        let choices = self.choices.clone();
        self.pending = Some(Viol {
            msg: msg.to_string(),
            model,
            choices,
            weak,
        });
        abort(Abort::Violation)
    }
    pub fn set_check(&mut self, on: bool) {
        self.in_check = on
    }
    pub fn hint_sq(&mut self, p: usize, v: Id, q: Id) {
        self.hints.push((p, v, q));
    }
    pub fn hint_prod(&mut self, p: usize, v: Id, w: Id) {
        self.prods.push((p, v, w));
    }
    pub fn prime_index(&mut self, m: &Z) -> usize {
        match self.note_prime(m) {
            Some(i) => i,
            None => panic!("not a prime: {}", m),
        }
    }
}

/// What a run came to: the message of a violation, or whether it was given up.
fn outcome(r: std::thread::Result<()>) -> (Option<Abort>, Option<String>) {
    match r {
        Ok(()) => (None, None),
        Err(p) => match p.downcast::<Abort>() {
            Ok(a) => (Some(*a), None),
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                (None, Some(format!("panic: {}", m)))
            }
        },
    }
}
fn same_end(a: &Option<Abort>) -> u8 {
    match a {
        None => 0,
        Some(Abort::Dead) => 1,
        Some(Abort::Violation) => 2,
        Some(Abort::Unsupported(_)) => 3,
        Some(Abort::Budget(_)) => 4,
    }
}
/// Re-run the finished path with joins answered otherwise; the joins that matter after all.
fn bad_joins(f: &dyn Fn(), old: usize, kind: u8, vmsg: &Option<String>) -> Vec<u64> {
    let (base, sets) = with(|e| {
        let base = e.trail.clone();
        let js: Vec<(usize, u32)> = base.iter().enumerate().filter(|(_, t)| t.alt > 0).map(|(i, t)| (i, t.alt)).collect();
        let mut sets: Vec<Vec<(usize, u32)>> = vec![];
        if !js.is_empty() {
            sets.push(js.iter().map(|(i, n)| (*i, n - 1)).collect());
            for (i, n) in &js {
                if *i >= old || js.len() <= 4 {
                    for v in 1..*n {
                        sets.push(vec![(*i, v)]);
                    }
                }
            }
            for _ in 0..2 {
                let mut v = vec![];
                for (i, n) in &js {
                    let k = (e.rng.next() >> 33) as u32 % n;
                    if k > 0 {
                        v.push((*i, k));
                    }
                }
                sets.push(v);
            }
        }
        (base, sets)
    });
    let mut bad = BTreeSet::new();
    let stats = with(|e| e.stats.clone());
    for set in sets {
        if set.is_empty() || set.iter().any(|(i, _)| bad.contains(&base[*i].h)) {
            continue;
        }
        with(|e| {
            e.reset_path();
            e.trail = base.clone();
            for (i, v) in &set {
                e.trail[*i].val = *v;
            }
            e.verifying = true;
        });
        let r = outcome(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)));
        with(|e| {
            e.verifying = false;
            let m = r.1.or(e.vmsg.clone());
            let k = if m.is_some() { 2 } else { same_end(&r.0) };
            if e.mismatch || k != kind || &m != vmsg || e.pos != base.len() {
                if e.trace {
                    eprintln!("join refuted: {:?} at {} of {}", set, e.pos, base.len());
                }
                bad.extend(set.iter().map(|(i, _)| base[*i].h));
            }
        });
    }
    with(|e| {
        e.trail = base;
        let (q, t) = (e.stats.queries, e.stats.solver_ms);
        e.stats = stats;
        e.stats.queries = q;
        e.stats.solver_ms = t;
    });
    bad.into_iter().collect()
}

/// Explore every path of `f`.
pub fn explore(f: &dyn Fn()) {
    with(|e| {
        e.trail.clear();
        e.nojoin.clear();
        e.stats = Stats::default();
    });
    let mut old = 0;
    loop {
        with(|e| e.reset_path());
        let (a, panic) = outcome(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)));
        let mut stop = false;
        if let Some(m) = panic {
            with(|e| {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.violation(&m)));
            });
        }
        let (joins, kind, vmsg, pending) = with(|e| {
            let kind = if e.vmsg.is_some() { 2 } else { same_end(&a) };
            (e.trail.iter().any(|t| t.alt > 0), kind, e.vmsg.take(), e.pending.take())
        });
        if joins && !matches!(a, Some(Abort::Budget(_))) {
            let bad = bad_joins(f, old, kind, &vmsg);
            if !bad.is_empty() {
                // explored again with these as ordinary decisions
                let stop = with(|e| {
                    let i = e.trail.iter().position(|t| t.alt > 0 && bad.contains(&t.h)).unwrap();
                    e.trail.truncate(i);
                    e.nojoin.extend(bad);
                    old = i.min(old);
                    let late = e.deadline.is_some_and(|d| Instant::now() > d);
                    if late {
                        e.incon.push("budget: deadline".into());
                    }
                    late
                });
                if stop {
                    break;
                }
                continue;
            }
        }
        with(|e| {
            e.stats.paths += 1;
            if let Some(v) = pending {
                // a complete counterexample ends the exploration of this case soon
                if !v.weak {
                    let d = Instant::now() + std::time::Duration::from_secs(20);
                    e.deadline = e.deadline.map(|x| x.min(d));
                }
                e.viols.push(v);
            }
            match a {
                None | Some(Abort::Violation) => {}
                Some(Abort::Dead) => e.stats.dead += 1,
                Some(Abort::Unsupported(s)) => {
                    if e.incon.len() < 20 {
                        e.incon.push(format!("unsupported: {}", s))
                    }
                }
                Some(Abort::Budget(s)) => {
                    e.incon.push(format!("budget: {}", s));
                    stop = true;
                }
            }
            if e.trace {
                eprintln!(
                    "path {} trail {:?}",
                    e.stats.paths,
                    e.trail.iter().map(|t| t.val).collect::<Vec<_>>()
                );
            }
            // next alternative
            loop {
                match e.trail.last_mut() {
                    None => {
                        stop = true;
                        break;
                    }
                    Some(t) => {
                        t.val += 1;
                        while t.skip.contains(&t.val) {
                            t.val += 1
                        }
                        if t.n > 1 && t.val < t.n {
                            break;
                        }
                        e.trail.pop();
                    }
                }
            }
            old = e.trail.len();
            if !stop && e.stats.paths >= e.max_paths {
                e.incon.push("budget: too many paths".into());
                stop = true;
            }
            if !stop && e.viols.len() >= 12 {
                stop = true;
            }
            if let Some(d) = e.deadline {
                if !stop && Instant::now() > d {
                    e.incon.push("budget: deadline".into());
                    stop = true;
                }
            }
        });
        if stop {
            break;
        }
    }
}
