//! An `Assignment` that records everything a circuit does.
use halo2_proofs::circuit::Value;
use halo2_proofs::plonk::{Advice, Any, Assigned, Assignment, Column, Error, Fixed, Instance, Selector};
use halo2_proofs::verif::{column_index, selector_index};
use pasta_curves::Fp;

/// column kind and index
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum At {
    A(usize),
    F(usize),
    I(usize),
    S(usize),
}
pub fn at(c: Column<Any>) -> At {
    match c.column_type() {
        Any::Advice => At::A(column_index(c)),
        Any::Fixed => At::F(column_index(c)),
        Any::Instance => At::I(column_index(c)),
    }
}
#[derive(Clone, Debug)]
pub enum Ev {
    Enter(String),
    Exit,
    Push(String),
    Pop,
    /// a cell (or selector) takes a value
    Set(At, usize, Option<Assigned<Fp>>),
    Copy((At, usize), (At, usize)),
    Fill(usize, usize, Option<Assigned<Fp>>),
}
#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub ev: Vec<Ev>,
    pub inst: Vec<Vec<Fp>>,
}
fn get<V: Into<Assigned<Fp>>>(v: Value<V>) -> Option<Assigned<Fp>> {
    let mut o = None;
    v.map(|x| o = Some(x.into()));
    o
}
impl Rec {
    pub fn new(inst: Vec<Vec<Fp>>) -> Self {
        Rec { ev: vec![], inst }
    }
}
impl Assignment<Fp> for Rec {
    fn enter_region<NR: Into<String>, N: FnOnce() -> NR>(&mut self, n: N) {
        self.ev.push(Ev::Enter(n().into()));
    }
    fn exit_region(&mut self) {
        self.ev.push(Ev::Exit);
    }
    fn enable_selector<A: FnOnce() -> AR, AR: Into<String>>(&mut self, _: A, s: &Selector, row: usize) -> Result<(), Error> {
        self.ev.push(Ev::Set(At::S(selector_index(s)), row, None));
        Ok(())
    }
    fn query_instance(&self, c: Column<Instance>, row: usize) -> Result<Value<Fp>, Error> {
        Ok(match self.inst.get(column_index(c.into())).and_then(|c| c.get(row)) {
            Some(v) => Value::known(*v),
            None => Value::unknown(),
        })
    }
    fn assign_advice<V: FnOnce() -> Value<VR>, VR: Into<Assigned<Fp>>, A: FnOnce() -> AR, AR: Into<String>>(
        &mut self,
        _: A,
        c: Column<Advice>,
        row: usize,
        to: V,
    ) -> Result<(), Error> {
        let v = get(to());
        self.ev.push(Ev::Set(At::A(column_index(c.into())), row, v));
        Ok(())
    }
    fn assign_fixed<V: FnOnce() -> Value<VR>, VR: Into<Assigned<Fp>>, A: FnOnce() -> AR, AR: Into<String>>(
        &mut self,
        _: A,
        c: Column<Fixed>,
        row: usize,
        to: V,
    ) -> Result<(), Error> {
        let v = get(to());
        self.ev.push(Ev::Set(At::F(column_index(c.into())), row, v));
        Ok(())
    }
    fn copy(&mut self, l: Column<Any>, lr: usize, r: Column<Any>, rr: usize) -> Result<(), Error> {
        self.ev.push(Ev::Copy((at(l), lr), (at(r), rr)));
        Ok(())
    }
    fn fill_from_row(&mut self, c: Column<Fixed>, row: usize, to: Value<Assigned<Fp>>) -> Result<(), Error> {
        self.ev.push(Ev::Fill(column_index(c.into()), row, get(to)));
        Ok(())
    }
    fn push_namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, n: N) {
        self.ev.push(Ev::Push(n().into()));
    }
    fn pop_namespace(&mut self, _: Option<String>) {
        self.ev.push(Ev::Pop);
    }
}
