// Included twice: `we` (Weierstrass) and `mt` (Montgomery) modules.
// expects in scope: lib, mkpt, coords, ID (short name), KS: the constants, getc(name)

pub struct In {
    pub k: &'static K,
    pub p: Rc<BigInt>,
    pub e: lib::Curve,
    pub c: Cubic,
}
pub fn inst(k: &'static K) -> In {
    let p = Rc::new(z(k.p));
    let r = |s: &str| R::new(&z(s), &p);
    let c = if MONT {
        Cubic { b: r(k.b), a2: r(k.a), a4: r("1"), a6: r("0") }
    } else {
        Cubic { b: r("1"), a2: r("0"), a4: r(k.a), a6: r(k.b) }
    };
    In { k, e: getc(k), c, p }
}
impl In {
    pub fn el(&self, v: &R) -> FpElt {
        self.e.get_field().elt(v.v.clone())
    }
    pub fn pt(&self, c: &[R; 3]) -> lib::Point {
        mkpt(&self.e, self.el(&c[0]), self.el(&c[1]), self.el(&c[2]))
    }
    pub fn is(&self, r: &lib::Point, want: &Aff) -> bool {
        denotes(&coords(r), want, &self.p)
    }
    /// Completeness lemma of the addition law used here: y(D) never takes the value the law is exceptional at.
    pub fn lemma(&self, d: &Aff) {
        if let Some((_, y)) = d {
            let bad = if MONT { R::new(&z(self.k.s), &self.p) } else { y.k(0) };
            ctx::fact(&[(false, &(&self.c.b * y), &bad)]);
        }
    }
    /// The cubic whose roots would be the exceptional differences.
    pub fn exceptional(&self) -> Vec<R> {
        let one = self.c.b.k(1);
        let c0 = if MONT {
            let s = R::new(&z(self.k.s), &self.p);
            let bi = R { v: self.c.b.v.modpow(&(&*self.p - 2), &self.p), p: self.p.clone() };
            -(s.sq() * bi)
        } else {
            self.c.a6.clone()
        };
        vec![c0, self.c.a4.clone(), self.c.a2.clone(), one]
    }
}

fn group(i: &In, op: usize) {
    let p1 = any_point("P", &i.c, &[]);
    let l1 = i.pt(&rep("P", &p1, &i.p));
    if op == 2 {
        let r = if ctx::choose("form", 2) == 0 { -&l1 } else { -l1.clone() };
        ctx::check("negation", || i.is(&r, &i.c.neg(&p1)));
        return;
    }
    let p2 = any_point("Q", &i.c, &[&p1]);
    let l2 = i.pt(&rep("Q", &p2, &i.p));
    i.lemma(&p1);
    i.lemma(&p2);
    let n2 = i.c.neg(&p2);
    let (sum, dif) = (i.c.add(&p1, &p2), i.c.add(&p1, &n2));
    if op == 0 {
        i.lemma(&dif);
        let v = ctx::choose("form", 4);
        let r = variants!(v, l1, l2, +);
        ctx::check("sum is the chord-and-tangent sum", || i.is(&r, &sum));
    } else {
        i.lemma(&sum);
        let v = ctx::choose("form", 4);
        let r = variants!(v, l1, l2, -);
        ctx::check("difference is the sum with the inverse", || i.is(&r, &dif));
    }
}
fn laws_hold(i: &In) {
    // concrete facts behind the completeness lemma, decided by computation
    ctx::check("exceptional differences do not exist over the base field", || !has_root(&i.exceptional()));
    ctx::check("identity is the neutral element", || i.is(&i.e.identity(), &None));
}
fn small_multiple(i: &In, k: u32) {
    let p1 = any_point("P", &i.c, &[]);
    let l1 = i.pt(&rep("P", &p1, &i.p));
    i.lemma(&p1);
    let mut acc: Aff = None;
    for _ in 0..k {
        let n = i.c.neg(&p1);
        let d = i.c.add(&acc, &n);
        i.lemma(&d);
        acc = i.c.add(&acc, &p1);
        i.lemma(&acc);
    }
    let s = i.e.new_scalar(zi(k as i64));
    let r = match ctx::choose("form", 5) {
        0 => &l1 * &s,
        1 => l1.clone() * &s,
        2 => &s * &l1,
        3 => s.clone() * &l1,
        _ => s.clone() * l1.clone(),
    };
    ctx::check("k*P is the k-fold sum", || i.is(&r, &acc));
}
/// Native side of the abstract-group harness: k*G by double-and-add on the reference law.
pub fn kmul(i: &In) {
    let k = kmul_scalar(&z(i.k.r));
    let g = Some((R::new(&z(i.k.gx), &i.p), R::new(&z(i.k.gy), &i.p)));
    let mut acc = None;
    for j in (0..k.bits()).rev() {
        acc = i.c.add(&acc, &acc);
        if k.bit(j) {
            acc = i.c.add(&acc, &g);
        }
    }
    let r = i.e.get_generator() * i.e.new_scalar(k);
    ctx::check("k*P is the k-fold sum", || i.is(&r, &acc));
}
fn order(i: &In) {
    let r = z(i.k.r);
    let g = i.e.get_generator();
    let want = Some((R::new(&z(i.k.gx), &i.p), R::new(&z(i.k.gy), &i.p)));
    ctx::check("generator is the standard one", || i.is(&g, &want) && i.e.is_on_curve(&g));
    ctx::check("order and cofactor are the standard ones", || {
        i.e.get_order() == ub(&r) && i.e.get_cofactor() == z(i.k.h) && i.e.get_field().get_modulus() == *i.p
    });
    let minus = &g * i.e.new_scalar(&r - 1);
    ctx::check("(r-1)*G = -G", || minus == -&g && i.is(&minus, &i.c.neg(&want)));
    ctx::check("r*G is the identity", || (&minus + &g).is_zero() && (&g * i.e.new_scalar(r.clone())).is_zero());
    let k: BigInt = (&r - zi(5)) / zi(3);
    let a = &g * i.e.new_scalar(k.clone());
    let b = &g * i.e.new_scalar(&r - &k);
    ctx::check("k*G + (r-k)*G is the identity", || (&a + &b).is_zero() && !a.is_zero());
}
fn equality(i: &In) {
    let p1 = any_point("P", &i.c, &[]);
    let p2 = any_point("Q", &i.c, &[&p1]);
    let (l1, l2) = (i.pt(&rep("P", &p1, &i.p)), i.pt(&rep("Q", &p2, &i.p)));
    let same = match (&p1, &p2) {
        (None, None) => true,
        (Some(a), Some(b)) => a.0 == b.0 && a.1 == b.1,
        _ => false,
    };
    ctx::check("== holds exactly for representatives of one point", || (l1 == l2) == same);
    ctx::check("!= is the opposite", || (l1 != l2) != same);
    ctx::check("is_zero holds exactly for the identity", || l1.is_zero() == p1.is_none());
    let mut n = l1.clone();
    n.normalize();
    ctx::check("normalize keeps the point", || i.is(&n, &p1) && n == l1);
    let c = coords(&n);
    ctx::check("normalized coordinates are the affine ones", || match &p1 {
        None => i.is(&n, &None),
        Some((x, y)) => rv(&c[0], &i.p) == *x && rv(&c[1], &i.p) == *y && rv(&c[2], &i.p) == x.k(1),
    });
}
fn validation(i: &In) {
    let (x, y) = if ctx::random_mode() && ctx::coin(2) == 0 {
        let (x, y) = affine_point("v", &i.c, &[]);
        (R::new(&ctx::int("x", &x.v, &(&x.v + 1)), &i.p), R::new(&ctx::int("y", &y.v, &(&y.v + 1)), &i.p))
    } else {
        (R::new(&felt("x", &i.p), &i.p), R::new(&felt("y", &i.p), &i.p))
    };
    let ok = i.c.on(&Some((x.clone(), y.clone())));
    let r = ctx::catch(|| i.e.new_point(i.el(&x), i.el(&y)));
    match r {
        Ok(pt) => {
            ctx::check("an off-curve pair is refused", || ok);
            ctx::check("the point has the given coordinates", || i.is(&pt, &Some((x.clone(), y.clone()))));
            ctx::check("is_on_curve agrees", || i.e.is_on_curve(&pt));
        }
        Err(_) => ctx::check("an on-curve pair is accepted", || !ok),
    }
}
/// Points constructed on one curve are judged by another curve's own equation (one field).
fn validation_proj(i: &In, j: &In) {
    let q = any_point("Q", &j.c, &[]);
    let pt = j.pt(&rep("Q", &q, &j.p));
    let on = i.e.is_on_curve(&pt);
    let want = q.is_none() || i.c.on(&q);
    ctx::check("is_on_curve is the curve equation", || on == want);
}
/// Operands of different curves.
fn mixed_points(i: &In, j: &In) {
    let (p1, p2) = (any_point("P", &i.c, &[]), any_point("Q", &j.c, &[]));
    let (l1, l2) = (i.pt(&rep("P", &p1, &i.p)), j.pt(&rep("Q", &p2, &j.p)));
    match ctx::choose("op", 4) {
        0 => {
            let v = ctx::choose("form", 4);
            panics("the sum of points of different curves is refused", || variants!(v, l1, l2, +));
        }
        1 => {
            let v = ctx::choose("form", 4);
            panics("the difference of points of different curves is refused", || variants!(v, l1, l2, -));
        }
        2 => ctx::check("points of different curves are not equal", || !(l1 == l2) && l1 != l2),
        _ => ctx::check("different curves are not equal", || i.e != j.e && !(i.e == j.e)),
    }
}
/// A scalar of another order.
fn mixed_scalar(i: &In, j: &In) {
    let p1 = any_point("P", &i.c, &[]);
    let l1 = i.pt(&rep("P", &p1, &i.p));
    // (small scalars first: if they are not refused, those paths are short)
    let s = match ctx::choose("scalar", 4) {
        3 => j.e.new_scalar(felt("k", &z(j.k.r))),
        n => j.e.new_scalar(BigInt::from(n + 1)),
    };
    let v = ctx::choose("form", 6);
    panics("a scalar of another order is refused", || match v {
        0 => &l1 * &s,
        1 => l1.clone() * &s,
        2 => &s * &l1,
        3 => s.clone() * &l1,
        4 => &l1 * s.clone(),
        _ => s.clone() * l1.clone(),
    });
}
/// Coordinates of another field.
fn mixed_coords(i: &In, j: &In) {
    let c = [felt("a", &i.p), felt("b", &i.p), felt("c", &j.p), felt("d", &j.p)];
    let (fi, fj) = (i.e.get_field(), j.e.get_field());
    let k = ctx::choose("which", 3);
    panics("coordinates of another field are refused", || match k {
        0 => i.e.new_point(fj.elt(c[2].clone()), fj.elt(c[3].clone())),
        1 => i.e.new_point(fi.elt(c[0].clone()), fj.elt(c[3].clone())),
        _ => i.e.new_point(fj.elt(c[2].clone()), fi.elt(c[1].clone())),
    });
}
fn roundtrip(i: &In) {
    let size = i.e.get_field().size_bytes();
    let p1 = any_point("P", &i.c, &[]);
    if let Some((x, y)) = &p1 {
        let bi = if MONT { &i.c.b * &i.c.b } else { i.c.b.clone() };
        let _ = bi;
        ctx::hint_sq(&(i.c.rhs(x) * b_inv(i)), y);
    }
    let l1 = i.pt(&rep("P", &p1, &i.p));
    let compress = ctx::choose("compress", 2) == 1;
    let enc = l1.encode(compress);
    match &p1 {
        None => ctx::check("the identity is the single byte 0", || enc == vec![0u8]),
        Some((x, y)) => {
            let mut want: Vec<u8> = vec![];
            if compress {
                want.push(if y.odd() { 3 } else { 2 });
                want.extend(ctx::bytes_be(&x.v, size));
            } else {
                want.push(4);
                want.extend(ctx::bytes_be(&x.v, size));
                want.extend(ctx::bytes_be(&y.v, size));
            }
            ctx::check("length", || enc.len() == want.len());
            ctx::check("tag", || enc[0] == want[0]);
            ctx::check("x bytes", || BigInt::from_bytes_be(Sign::Plus, &enc[1..size + 1]) == x.v);
            if !compress {
                ctx::check("y bytes", || BigInt::from_bytes_be(Sign::Plus, &enc[size + 1..]) == y.v);
            }
        }
    }
    match i.e.decode(&enc) {
        Ok(q) => ctx::check("decode(encode(P)) = P", || i.is(&q, &p1) && q == l1),
        Err(e) => ctx::fail(Box::leak(format!("decode refuses what encode wrote ({})", e).into_boxed_str())),
    }
}
fn b_inv(i: &In) -> R {
    if i.c.b == i.c.b.k(1) {
        return i.c.b.clone();
    }
    i.c.b.inv()
}
/// Any byte string made of a tag byte and field-sized integers.
fn decode_total(i: &In, shape: usize) {
    let size = i.e.get_field().size_bytes();
    let top = BigInt::from(1) << (8 * size);
    // tags that mean something plus every other one, as one representative class each
    let tag = ctx::choose("tag", 256) as u8;
    let xv = if ctx::random_mode() && ctx::coin(2) == 0 {
        let (x, _) = affine_point("v", &i.c, &[]);
        ctx::int("x", &x.v, &(&x.v + 1))
    } else {
        ctx::int("x", &zi(0), &top)
    };
    let mut buf = vec![tag];
    buf.extend(ctx::bytes_be(&xv, size));
    if shape == 0 {
        // compressed
        let r = i.e.decode(&buf);
        if tag != 2 && tag != 3 {
            return ctx::check("unknown tag is refused", || r.is_err());
        }
        if xv >= *i.p {
            return ctx::check("x >= p is refused", || r.is_err());
        }
        let x = R::new(&xv, &i.p);
        let yy = i.c.rhs(&x) * b_inv(i);
        if yy.is_zero() {
            // y = 0 has the even tag only
            return ctx::check("y = 0 decodes from the even tag only", || match &r {
                Ok(q) => tag == 2 && i.is(q, &Some((x.clone(), x.k(0)))),
                Err(_) => tag == 3,
            });
        }
        if !yy.is_square() {
            return ctx::check("x without a point is refused", || r.is_err());
        }
        match r {
            Err(_) => ctx::fail("x of a point is refused"),
            Ok(q) => {
                let c = coords(&q);
                let (cx, cy, cz) = (rv(&c[0], &i.p), rv(&c[1], &i.p), rv(&c[2], &i.p));
                ctx::check("x is the encoded one", || cz == x.k(1) && cx == x);
                ctx::check("y solves the equation", || cy.sq() == yy);
                ctx::check("y has the encoded sign", || cy.odd() == (tag == 3));
                ctx::check("point is on the curve", || i.e.is_on_curve(&q));
            }
        }
    } else {
        let yv = ctx::int("y", &zi(0), &top);
        buf.extend(ctx::bytes_be(&yv, size));
        let r = i.e.decode(&buf);
        if tag != 4 {
            return ctx::check("unknown tag is refused", || r.is_err());
        }
        if xv >= *i.p || yv >= *i.p {
            return ctx::check("coordinates >= p are refused", || r.is_err());
        }
        let (x, y) = (R::new(&xv, &i.p), R::new(&yv, &i.p));
        let on = i.c.on(&Some((x.clone(), y.clone())));
        match r {
            Err(_) => ctx::check("a point is accepted", || !on),
            Ok(q) => {
                ctx::check("an off-curve pair is refused", || on);
                ctx::check("coordinates are the encoded ones", || i.is(&q, &Some((x.clone(), y.clone()))));
            }
        }
    }
}
/// Every other length, and the one-byte strings.
fn decode_lengths(i: &In) {
    let size = i.e.get_field().size_bytes();
    let len = ctx::choose("len", 2 * size + 40);
    if len == size + 1 || len == 2 * size + 1 {
        return ctx::check("proper lengths are covered elsewhere", || true);
    }
    if len == 1 {
        let t = ctx::choose("tag", 256) as u8;
        let r = i.e.decode(&[t]);
        return ctx::check("only the byte 0 decodes, to the identity", || match &r {
            Ok(q) => t == 0 && i.is(q, &None),
            Err(_) => t != 0,
        });
    }
    let buf = if len >= 8 {
        let mut b = vec![[0u8, 2, 3, 4, 5][ctx::choose("tag", 5)]];
        b.extend(ctx::bytes_be(&ctx::int("body", &zi(0), &(BigInt::from(1) << (8 * (len - 1)))), len - 1));
        b
    } else {
        let fill = [0u8, 2, 3, 4, 255][ctx::choose("fill", 5)];
        vec![fill; len]
    };
    let r = i.e.decode(&buf);
    ctx::check("a wrong length is refused", || r.is_err());
}

fn find(n: &str) -> In {
    let all = || KS.iter().chain(OTHER.iter()).chain(NEAR.iter());
    inst(all().find(|k| k.name == n).unwrap())
}
pub fn add(v: &mut Vec<Case>) {
    for (a, b) in PAIRS {
        v.push(case("C15", format!("mixed/{}-{}", a, b), "Point::{add,sub,eq}, Curve::eq", "any point of each of two different curves, every operator form", move || mixed_points(&find(a), &find(b))));
        let (i, j) = (find(a), find(b));
        if i.p == j.p {
            v.push(case("C15", format!("is_on_curve/{}-{}", a, b), "Curve::is_on_curve", "any point of one curve, any representation, judged by the other", move || validation_proj(&find(a), &find(b))));
        } else {
            v.push(case("C15", format!("foreign_coordinates/{}-{}", a, b), "Curve::{new_point,is_on_curve}", "any residues of two fields", move || mixed_coords(&find(a), &find(b))));
        }
        if i.k.r != j.k.r {
            v.push(case("C15", format!("foreign_scalar/{}-{}", a, b), "Point::mul, Scalar::mul", "any point, any scalar of another order", move || mixed_scalar(&find(a), &find(b))));
        }
    }
    let gp = if MONT { "C11" } else { "C10" };
    for k in OTHER {
        for (op, on) in [(0, "add"), (1, "sub"), (2, "neg")] {
            v.push(case(gp, format!("{}/{}", on, k.name), ADDFNS, "any two rational points in any projective representation, coefficient b other than 1", move || group(&inst(k), op)));
        }
        v.push(case(gp, format!("lemma/{}", k.name), "Curve::identity", "concrete polynomial computation", move || laws_hold(&inst(k))));
        v.push(case("C15", format!("new_point/{}", k.name), "Curve::{new_point,is_on_curve}", "any pair of residues", move || validation(&inst(k))));
        v.push(case("C14", format!("eq/{}", k.name), "Point::{eq,is_zero,normalize}", "any two points, any representation", move || equality(&inst(k))));
        v.push(case("C16", format!("roundtrip/{}", k.name), "Point::{encode,normalize}, Curve::decode", "any point, any representation, both forms", move || roundtrip(&inst(k))).thorough());
        v.push(case("C17", format!("compressed/{}", k.name), "Curve::decode", "any tag byte, any field-sized body", move || decode_total(&inst(k), 0)).thorough());
    }
    for k in KS {
        for (op, on) in [(0, "add"), (1, "sub"), (2, "neg")] {
            v.push(case(gp, format!("{}/{}", on, k.name), ADDFNS, "any two rational points in any projective representation", move || group(&inst(k), op)));
        }
        v.push(case(gp, format!("lemma/{}", k.name), "Curve::identity", "concrete polynomial computation", move || laws_hold(&inst(k))));
        for n in [0u32, 1, 2, 3] {
            v.push(case("C13", format!("mul{}/{}", n, k.name), MULFNS, "any rational point, scalar 0..3", move || small_multiple(&inst(k), n)));
        }
        v.push(case("C13", format!("order/{}", k.name), MULFNS, "concrete scalars r, r-1, (r-5)/3, generator", move || order(&inst(k))));
        v.push(case("C14", format!("eq/{}", k.name), "Point::{eq,is_zero,normalize}", "any two points, any representation", move || equality(&inst(k))));
        v.push(case("C15", format!("new_point/{}", k.name), "Curve::{new_point,is_on_curve}", "any pair of residues", move || validation(&inst(k))));
        v.push(case("C16", format!("roundtrip/{}", k.name), "Point::{encode,normalize}, Curve::decode, FpElt::{sqrt,sgn0,to_bytes_be}", "any point, any representation, both forms", move || roundtrip(&inst(k))));
        v.push(case("C17", format!("compressed/{}", k.name), "Curve::decode, FpElt::{sqrt,sgn0}", "any tag byte, any field-sized body", move || decode_total(&inst(k), 0)));
        v.push(case("C17", format!("uncompressed/{}", k.name), "Curve::decode", "any tag byte, any two field-sized integers", move || decode_total(&inst(k), 1)));
        v.push(case("C17", format!("lengths/{}", k.name), "Curve::decode", "every length below 2*size+40", move || decode_lengths(&inst(k))));
    }
}
