pub mod bodies;
pub mod cases;
use crate::ctx;
pub mod consts;
pub mod iso;
pub struct Case {
    pub name: String,
    pub prop: &'static str,
    pub thorough: bool,
    /// functions of the code under test executed symbolically by this case
    pub fns: &'static str,
    /// stated bound
    pub bound: &'static str,
    pub run: Box<dyn Fn()>,
}
pub fn case(prop: &'static str, name: String, fns: &'static str, bound: &'static str, run: impl Fn() + 'static) -> Case {
    Case { name: format!("{}/{}", prop, name), prop, thorough: false, fns, bound, run: Box::new(run) }
}
impl Case {
    pub fn thorough(mut self) -> Case {
        self.thorough = true;
        self
    }
}
pub fn all() -> Vec<Case> {
    let mut v = vec![];
    cases::field::add(&mut v);
    cases::ext::add(&mut v);
    cases::bytes::add(&mut v);
    cases::curves::add(&mut v);
    cases::edw::add(&mut v);
    cases::maps::add(&mut v);
    if ctx::NATIVE {
        cases::machine::add(&mut v);
    }
    v
}
