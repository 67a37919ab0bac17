//! P18: floor planners, P19: lookup tables.
use super::rec::*;
use super::util::*;
use crate::core::*;
use halo2_proofs::circuit::floor_planner::V1;
use halo2_proofs::circuit::{AssignedCell, Layouter, Region, SimpleFloorPlanner, Value};
use halo2_proofs::plonk::{
    Advice, Assigned, Circuit, Column, ConstraintSystem, Error, Fixed, FloorPlanner, Instance, Selector, TableColumn,
};
use pasta_curves::Fp;
use rand_core::RngCore;
use std::collections::{BTreeMap, BTreeSet};

const NA: usize = 4;
const NF: usize = 3;
const NT: usize = 4;
const NS: usize = 3;

type Val = Assigned<Fp>;
/// reference to the n-th cell the program creates
type Ref = usize;
#[derive(Clone, Debug)]
enum Op {
    Advice(usize, usize, Val),
    AdviceUnknown(usize, usize),
    Fixed(usize, usize, Val),
    AdviceConst(usize, usize, Val),
    AdviceInst(usize, usize, usize),
    CopyAdvice(Ref, usize, usize),
    Constant(Ref, Val),
    Equal(Ref, Ref),
    Selector(usize, usize),
}
#[derive(Clone, Debug)]
enum Item {
    Region(Vec<Op>),
    Table(Vec<(usize, usize, Val)>),
    Instance(Ref, usize),
    Push,
    Pop,
}
/// (region, column, offset, value) of each cell
#[derive(Clone, Debug, Default)]
struct Prog {
    items: Vec<Item>,
    cells: Vec<(usize, At, usize, Option<Val>)>,
    nconst: usize,
    inst: Vec<Fp>,
}
#[derive(Clone)]
struct Cfg {
    a: Vec<Column<Advice>>,
    f: Vec<Column<Fixed>>,
    t: Vec<TableColumn>,
    s: Vec<Selector>,
    i: Column<Instance>,
}

type Cell = AssignedCell<Assigned<Fp>, Fp>;
fn ops(cfg: &Cfg, region: &mut Region<'_, Fp>, ops: &[Op], before: &[Cell]) -> Result<Vec<Cell>, Error> {
    let mut new: Vec<Cell> = vec![];
    let cell = |new: &Vec<Cell>, r: &Ref| -> Cell {
        if *r < before.len() {
            before[*r].clone()
        } else {
            new[*r - before.len()].clone()
        }
    };
    for op in ops {
        match op {
            Op::Advice(c, o, v) => new.push(region.assign_advice(|| "a", cfg.a[*c], *o, || Value::known(*v))?),
            Op::AdviceUnknown(c, o) => new.push(region.assign_advice(|| "a", cfg.a[*c], *o, Value::unknown)?),
            Op::Fixed(c, o, v) => new.push(region.assign_fixed(|| "f", cfg.f[*c], *o, || Value::known(*v))?),
            Op::AdviceConst(c, o, v) => new.push(region.assign_advice_from_constant(|| "c", cfg.a[*c], *o, *v)?),
            Op::AdviceInst(row, c, o) => new.push(region.assign_advice_from_instance(|| "i", cfg.i, *row, cfg.a[*c], *o)?.into()),
            Op::CopyAdvice(r, c, o) => {
                let x = cell(&new, r).copy_advice(|| "copy", region, cfg.a[*c], *o)?;
                new.push(x)
            }
            Op::Constant(r, v) => region.constrain_constant(cell(&new, r).cell(), *v)?,
            Op::Equal(a, b) => region.constrain_equal(cell(&new, a).cell(), cell(&new, b).cell())?,
            Op::Selector(s, o) => cfg.s[*s].enable(region, *o)?,
        }
    }
    Ok(new)
}
fn items(cfg: &Cfg, items: &[Item], at: &mut usize, cells: &mut Vec<Cell>, l: &mut impl Layouter<Fp>) -> Result<(), Error> {
    while *at < items.len() {
        let it = &items[*at];
        *at += 1;
        match it {
            Item::Region(o) => {
                let name = format!("r{}", *at - 1);
                let new = l.assign_region(|| name.clone(), |mut region| ops(cfg, &mut region, o, cells))?;
                cells.extend(new);
            }
            Item::Table(v) => {
                let name = format!("r{}", *at - 1);
                l.assign_table(
                    || name.clone(),
                    |mut t| {
                        for (c, o, v) in v {
                            t.assign_cell(|| "t", cfg.t[*c], *o, || Value::known(*v))?;
                        }
                        Ok(())
                    },
                )?
            }
            Item::Instance(r, row) => l.constrain_instance(cells[*r].cell(), cfg.i, *row)?,
            Item::Push => {
                let name = format!("n{}", *at - 1);
                nested(cfg, items, at, cells, l, name)?
            }
            Item::Pop => return Ok(()),
        }
    }
    Ok(())
}
/// the rest of a namespace; deeper ones are spelled out to keep the types finite
fn nested(cfg: &Cfg, its: &[Item], at: &mut usize, cells: &mut Vec<Cell>, l: &mut impl Layouter<Fp>, name: String) -> Result<(), Error> {
    let mut ns = l.namespace(|| name.clone());
    let l = &mut ns;
    while *at < its.len() {
        let it = &its[*at];
        *at += 1;
        match it {
            Item::Region(o) => {
                let name = format!("r{}", *at - 1);
                let new = l.assign_region(|| name.clone(), |mut region| ops(cfg, &mut region, o, cells))?;
                cells.extend(new);
            }
            Item::Table(v) => {
                let name = format!("r{}", *at - 1);
                l.assign_table(
                    || name.clone(),
                    |mut t| {
                        for (c, o, v) in v {
                            t.assign_cell(|| "t", cfg.t[*c], *o, || Value::known(*v))?;
                        }
                        Ok(())
                    },
                )?
            }
            Item::Instance(r, row) => l.constrain_instance(cells[*r].cell(), cfg.i, *row)?,
            Item::Push => {}
            Item::Pop => return Ok(()),
        }
    }
    Ok(())
}
macro_rules! circuit {
    ($name:ident, $fp:ty) => {
        struct $name(Prog, bool);
        impl Circuit<Fp> for $name {
            type Config = Cfg;
            type FloorPlanner = $fp;
            fn without_witnesses(&self) -> Self {
                $name(self.0.clone(), false)
            }
            fn configure(m: &mut ConstraintSystem<Fp>) -> Cfg {
                configure(m)
            }
            fn synthesize(&self, cfg: Cfg, mut l: impl Layouter<Fp>) -> Result<(), Error> {
                items(&cfg, &self.0.items, &mut 0, &mut vec![], &mut l)
            }
        }
    };
}
circuit!(Simple, SimpleFloorPlanner);
circuit!(Two, V1);
fn configure(m: &mut ConstraintSystem<Fp>) -> Cfg {
    let c = Cfg {
        a: (0..NA).map(|_| m.advice_column()).collect(),
        f: (0..NF).map(|_| m.fixed_column()).collect(),
        t: (0..NT).map(|_| m.lookup_table_column()).collect(),
        s: (0..NS).map(|i| if i == 0 { m.selector() } else { m.complex_selector() }).collect(),
        i: m.instance_column(),
    };
    m.enable_equality(c.i);
    for x in &c.a {
        m.enable_equality(*x);
    }
    for x in &c.f {
        m.enable_equality(*x);
    }
    c
}

fn val(h: &mut H, r: &mut Rng, n: &mut usize) -> Val {
    *n += 1;
    let x = h.fp(&format!("v{}", n));
    match r.next_u32() % 8 {
        0 => Assigned::Zero,
        1 => Assigned::Rational(x, h.fp(&format!("d{}", n))),
        _ => Assigned::Trivial(x),
    }
}
fn program(h: &mut H, r: &mut Rng, nconst: usize, tables: bool) -> Prog {
    // names are unique within a run
    let mut n = h.vars.len() + 1000 * h.facts as usize;
    let mut p = Prog { nconst, inst: (0..4).map(|i| h.fp(&format!("i{}_{}", n, i))).collect(), ..Default::default() };
    let regions = 1 + r.next_u32() as usize % 7;
    let mut depth = 0;
    let mut tfree: Vec<usize> = (0..NT).collect();
    let heavy = r.next_u32() % 3 == 0;
    for _ in 0..regions {
        if depth == 0 && r.next_u32() % 4 == 0 {
            p.items.push(Item::Push);
            depth += 1;
        }
        let reg = p.items.len();
        let height = 1 + r.next_u32() as usize % if heavy { 6 } else { 3 };
        let mut o = vec![];
        let mut used: BTreeSet<(At, usize)> = BTreeSet::new();
        // few columns per region, so that regions fit beside each other
        let cols: Vec<usize> = (0..1 + r.next_u32() % 3).map(|_| r.next_u32() as usize % NA).collect();
        let nops = r.next_u32() % 8;
        for _ in 0..nops {
            let off = r.next_u32() as usize % height;
            let c = cols[r.next_u32() as usize % cols.len()];
            let any = |r: &mut Rng, p: &Prog| r.next_u32() as usize % p.cells.len();
            let kind = r.next_u32() % 12;
            match kind {
                0 => {
                    let f = r.next_u32() as usize % NF;
                    if used.insert((At::F(f), off)) {
                        let v = val(h, r, &mut n);
                        o.push(Op::Fixed(f, off, v));
                        p.cells.push((reg, At::F(f), off, Some(v)));
                    }
                }
                1 | 2 => {
                    let s = r.next_u32() as usize % NS;
                    o.push(Op::Selector(s, off));
                }
                3 if !p.cells.is_empty() => {
                    let v = val(h, r, &mut n);
                    o.push(Op::Constant(any(r, &p), v));
                }
                4 if !p.cells.is_empty() => o.push(Op::Equal(any(r, &p), any(r, &p))),
                _ => {
                    if !used.insert((At::A(c), off)) {
                        continue;
                    }
                    match kind {
                        5 if !p.cells.is_empty() => {
                            let q = any(r, &p);
                            o.push(Op::CopyAdvice(q, c, off));
                            let v = p.cells[q].3;
                            p.cells.push((reg, At::A(c), off, v));
                        }
                        6 => {
                            let row = r.next_u32() as usize % 4;
                            o.push(Op::AdviceInst(row, c, off));
                            p.cells.push((reg, At::A(c), off, Some(Assigned::Trivial(p.inst[row]))));
                        }
                        7 => {
                            let v = val(h, r, &mut n);
                            o.push(Op::AdviceConst(c, off, v));
                            p.cells.push((reg, At::A(c), off, Some(v)));
                        }
                        8 => {
                            o.push(Op::AdviceUnknown(c, off));
                            p.cells.push((reg, At::A(c), off, None));
                        }
                        _ => {
                            let v = val(h, r, &mut n);
                            o.push(Op::Advice(c, off, v));
                            p.cells.push((reg, At::A(c), off, Some(v)));
                        }
                    }
                }
            }
        }
        p.items.push(Item::Region(o));
        if tables && r.next_u32() % 3 == 0 && !tfree.is_empty() {
            let t = 1 + r.next_u32() as usize % tfree.len().min(2);
            let cols: Vec<usize> = tfree.drain(..t).collect();
            let len = 1 + r.next_u32() as usize % 4;
            let mut cells: Vec<(usize, usize, Val)> = vec![];
            for c in &cols {
                for row in 0..len {
                    cells.push((*c, row, val(h, r, &mut n)));
                }
            }
            shuffle(r, &mut cells);
            p.items.push(Item::Table(cells));
        }
        if depth > 0 && r.next_u32() % 2 == 0 {
            p.items.push(Item::Pop);
            depth -= 1;
        }
        if !p.cells.is_empty() && r.next_u32() % 4 == 0 {
            p.items.push(Item::Instance(r.next_u32() as usize % p.cells.len(), r.next_u32() as usize % 4));
        }
    }
    if depth > 0 {
        p.items.push(Item::Pop);
    }
    p
}
fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.next_u32() as usize % (i + 1));
    }
}
fn plan(p: &Prog, two: bool) -> Result<Vec<Ev>, Error> {
    let mut m = ConstraintSystem::<Fp>::default();
    let cfg = configure(&mut m);
    let consts = cfg.f[..p.nconst].to_vec();
    let mut rec = Rec::new(vec![p.inst.clone()]);
    if two {
        V1::synthesize(&mut rec, &Two(p.clone(), true), cfg, consts)?;
    } else {
        SimpleFloorPlanner::synthesize(&mut rec, &Simple(p.clone(), true), cfg, consts)?;
    }
    Ok(rec.ev)
}
fn same(h: &mut H, what: &str, got: &Option<Val>, want: &Option<Val>) {
    match (got, want) {
        (None, None) => {}
        (Some(g), Some(w)) => {
            h.eq(&format!("{}: numerator", what), g.numerator(), w.numerator());
            let one = Some(Fp::from(1));
            h.eq(&format!("{}: denominator", what), g.denominator().or(one).unwrap(), w.denominator().or(one).unwrap());
        }
        _ => h.ok(&format!("{}: presence of a value", what), false),
    }
}
/// The region's cells: what the program writes, in order.
fn writes(p: &Prog, o: &[Op], base: usize) -> (Vec<(At, usize, Option<Val>)>, usize) {
    let mut v = vec![];
    let mut k = base;
    for op in o {
        match op {
            Op::Selector(s, off) => v.push((At::S(*s), *off, None)),
            Op::Constant(..) | Op::Equal(..) => {}
            _ => {
                let c = &p.cells[k];
                v.push((c.1, c.2, c.3));
                k += 1;
            }
        }
    }
    (v, k)
}
struct Reg {
    item: usize,
    writes: Vec<(At, usize, Option<Val>)>,
    cols: BTreeSet<At>,
    rows: usize,
}
fn check(h: &mut H, who: &str, p: &Prog, two: bool) {
    let got = plan(p, two);
    let mut regs: Vec<Reg> = vec![];
    let mut consts: Vec<(usize, Val, Ref)> = vec![];
    let mut k = 0;
    for (i, it) in p.items.iter().enumerate() {
        if let Item::Region(o) = it {
            let mut own = k;
            for op in o {
                match op {
                    Op::Constant(r, v) => consts.push((i, *v, *r)),
                    Op::AdviceConst(_, _, v) => {
                        consts.push((i, *v, own));
                        own += 1
                    }
                    Op::Selector(..) | Op::Equal(..) => {}
                    _ => own += 1,
                }
            }
            let (w, nk) = writes(p, o, k);
            k = nk;
            regs.push(Reg { item: i, cols: w.iter().map(|x| x.0).collect(), rows: w.iter().map(|x| x.1 + 1).max().unwrap_or(0), writes: w });
        }
    }
    let ev = match got {
        Err(Error::NotEnoughColumnsForConstants) => {
            if !two {
                h.ok(&format!("{}: constants refused although there is a column", who), p.nconst == 0 && !consts.is_empty());
                return;
            }
            // free cells of the constants columns among the rows the regions occupy; the layout does not depend on constants
            let mut q = p.clone();
            for it in q.items.iter_mut() {
                if let Item::Region(o) = it {
                    o.retain(|x| !matches!(x, Op::Constant(..)));
                    for x in o.iter_mut() {
                        if let Op::AdviceConst(c, off, v) = x {
                            *x = Op::Advice(*c, *off, *v)
                        }
                    }
                }
            }
            let ev = plan(&q, true).unwrap();
            let starts = starts(&ev, &regs);
            let end = regs.iter().zip(&starts).filter(|(r, _)| !r.cols.is_empty()).map(|(r, s)| s + r.rows).max().unwrap_or(0);
            let mut free = 0;
            for c in 0..p.nconst {
                for row in 0..end {
                    free += !regs.iter().zip(&starts).any(|(r, s)| r.cols.contains(&At::F(c)) && (*s..*s + r.rows).contains(&row)) as usize;
                }
            }
            h.ok(&format!("{}: {} constants refused with {} free cells", who, consts.len(), free), free < consts.len());
            return;
        }
        Err(e) => {
            h.ok(&format!("{}: {:?}", who, e), false);
            return;
        }
        Ok(ev) => ev,
    };
    h.ok(&format!("{}: constants without a column", who), consts.is_empty() || p.nconst > 0);
    // the same layout every time
    let again = format!("{:?}", plan(p, two).unwrap());
    let tables = p.items.iter().any(|x| matches!(x, Item::Table(_)));
    h.ok(&format!("{}: the layout changes from run to run", who), tables || again == format!("{:?}", ev));
    let starts = starts(&ev, &regs);
    let row = |r: Ref| {
        let c = &p.cells[r];
        let i = regs.iter().position(|x| x.item == c.0).unwrap();
        (c.1, starts[i] + c.2)
    };
    // regions do not overlap in any column
    for i in 0..regs.len() {
        for j in 0..i {
            let (a, b) = (&regs[i], &regs[j]);
            let shared = a.cols.intersection(&b.cols).next().is_some();
            let apart = starts[i] + a.rows <= starts[j] || starts[j] + b.rows <= starts[i];
            h.ok(&format!("{}: regions {} and {} overlap", who, i, j), !shared || apart);
        }
    }
    // the layout depends on the shapes only: no two cells that regions of these shapes could have share a place
    let mut q = String::from("(declare-const c Int)(declare-const a Int)(declare-const b Int)\n(declare-fun has (Int Int) Bool)\n");
    q += "(declare-const i Int)(declare-const j Int)(declare-fun start (Int) Int)(declare-fun rows (Int) Int)\n";
    let col = |c: &At| match c {
        At::A(x) => *x,
        At::F(x) => 100 + x,
        At::S(x) => 200 + x,
        At::I(x) => 300 + x,
    };
    for (i, r) in regs.iter().enumerate() {
        q += &format!("(assert (= (start {}) {}))(assert (= (rows {}) {}))\n", i, starts[i], i, r.rows);
        let cs: Vec<String> = r.cols.iter().map(|c| format!("(= c {})", col(c))).collect();
        q += &format!("(assert (= (has {} c) (or false {})))\n", i, cs.join(" "));
    }
    q += &format!("(assert (and (<= 0 i) (< i j) (< j {})))\n", regs.len());
    q += "(assert (and (has i c) (has j c) (<= 0 a) (< a (rows i)) (<= 0 b) (< b (rows j)) (= (+ (start i) a) (+ (start j) b))))\n(check-sat)";
    h.unsat(&format!("{}: two cells in one place", who), q);
    // expected writes per region, and copies
    let mut want_copies: Vec<[(At, usize); 2]> = vec![];
    let mut cell = 0;
    for it in &p.items {
        match it {
            Item::Region(o) => {
                for op in o {
                    match op {
                        Op::Constant(..) | Op::Selector(..) => {}
                        Op::Equal(a, b) => want_copies.push([row(*a), row(*b)]),
                        Op::CopyAdvice(a, ..) => {
                            want_copies.push([row(*a), row(cell)]);
                            cell += 1
                        }
                        Op::AdviceInst(i, ..) => {
                            want_copies.push([(At::I(0), *i), row(cell)]);
                            cell += 1
                        }
                        _ => cell += 1,
                    }
                }
            }
            Item::Instance(r, i) => want_copies.push([row(*r), (At::I(0), *i)]),
            _ => {}
        }
    }
    let mut cur: Option<usize> = None;
    let mut at = 0;
    let mut open = vec![];
    let mut got_copies: Vec<[(At, usize); 2]> = vec![];
    let mut outside: Vec<(At, usize, Option<Val>)> = vec![];
    let mut fills: BTreeMap<usize, Vec<(usize, Option<Val>)>> = BTreeMap::new();
    let mut tcells: BTreeMap<(usize, usize), Vec<Option<Val>>> = BTreeMap::new();
    let mut seen = BTreeSet::new();
    let mut trail = vec![];
    for e in &ev {
        match e {
            Ev::Push(n) => {
                open.push(n.clone());
                trail.push(format!("push {}", n));
            }
            Ev::Pop => {
                open.pop();
                trail.push("pop".into());
            }
            Ev::Enter(n) => {
                trail.push(n.clone());
                let i: usize = n[1..].parse().unwrap();
                h.ok(&format!("{}: region {} laid out twice", who, i), seen.insert(i));
                cur = Some(i);
                at = 0;
            }
            Ev::Exit => {
                if let Some(i) = regs.iter().position(|r| Some(r.item) == cur) {
                    h.ok(&format!("{}: region {} has {} of its {} assignments", who, i, at, regs[i].writes.len()), at == regs[i].writes.len());
                }
                cur = None;
            }
            Ev::Set(c, r, v) => match cur {
                None => outside.push((*c, *r, *v)),
                Some(item) => match regs.iter().position(|r| r.item == item) {
                    Some(i) => {
                        match regs[i].writes.get(at).cloned() {
                            None => h.ok(&format!("{}: region {} has extra assignments", who, i), false),
                            Some((wc, wo, wv)) => {
                                h.ok(
                                    &format!("{}: assignment {} of region {} at {:?} row {}, wanted {:?} offset {} of start {}", who, at, i, c, r, wc, wo, starts[i]),
                                    *c == wc && *r == starts[i] + wo,
                                );
                                same(h, &format!("{}: assignment {} of region {}", who, at, i), v, &wv);
                            }
                        }
                        at += 1;
                    }
                    None => match c {
                        At::F(c) => tcells.entry((*c, *r)).or_default().push(*v),
                        _ => h.ok("table assigns a fixed column", false),
                    },
                },
            },
            Ev::Copy(a, b) => got_copies.push([*a, *b]),
            Ev::Fill(c, r, v) => fills.entry(*c).or_default().push((*r, *v)),
        }
    }
    let mut want_trail = vec![];
    for (i, it) in p.items.iter().enumerate() {
        match it {
            Item::Push => want_trail.push(format!("push n{}", i)),
            Item::Pop => want_trail.push("pop".into()),
            Item::Region(_) | Item::Table(_) => want_trail.push(format!("r{}", i)),
            _ => {}
        }
    }
    h.ok(&format!("{}: regions and namespaces {:?} instead of {:?}", who, trail, want_trail), trail == want_trail);
    h.ok(&format!("{}: {} of {} regions laid out", who, seen.len(), regs.len()), regs.iter().all(|r| seen.contains(&r.item)));
    // constants: each in a cell of its own, holding the value, tied to the constrained cell
    h.ok(&format!("{}: {} cells for {} constants", who, outside.len(), consts.len()), outside.len() == consts.len());
    if outside.len() != consts.len() {
        return;
    }
    for (i, (c, r, v)) in outside.iter().enumerate() {
        h.ok(&format!("{}: constant {} outside the constants columns", who, i), matches!(c, At::F(x) if *x < p.nconst));
        let taken = regs.iter().zip(&starts).any(|(g, s)| g.cols.contains(c) && (*s..*s + g.rows).contains(r));
        h.ok(&format!("{}: constant {} inside a region", who, i), !taken);
        h.ok(&format!("{}: constant {} overwritten", who, i), !outside[..i].iter().any(|(c2, r2, _)| c2 == c && r2 == r));
        // in the order of the constraints
        if let Some((_, w, cell)) = consts.get(i) {
            same(h, &format!("{}: constant {}", who, i), v, &Some(*w));
            want_copies.push([(*c, *r), row(*cell)]);
        }
    }
    let norm = |v: &Vec<[(At, usize); 2]>| {
        let mut w: Vec<[(At, usize); 2]> = v.iter().map(|[a, b]| if a < b { [*a, *b] } else { [*b, *a] }).collect();
        w.sort();
        w
    };
    h.ok(&format!("{}: copies {:?} instead of {:?}", who, norm(&got_copies), norm(&want_copies)), norm(&got_copies) == norm(&want_copies));
    // tables
    for it in &p.items {
        if let Item::Table(v) = it {
            for (c, o, x) in v {
                match tcells.remove(&(NF + c, *o)) {
                    Some(g) if g.len() == 1 => same(h, &format!("{}: table {} row {}", who, c, o), &g[0], &Some(*x)),
                    g => h.ok(&format!("{}: table {} row {} assigned {:?}", who, c, o, g), false),
                }
            }
            for c in v.iter().map(|x| x.0).collect::<BTreeSet<_>>() {
                let len = v.iter().filter(|x| x.0 == c).count();
                let first = v.iter().find(|x| x.0 == c && x.1 == 0).unwrap().2;
                match fills.remove(&(NF + c)) {
                    Some(g) if g.len() == 1 && g[0].0 == len => same(h, &format!("{}: filling of table {}", who, c), &g[0].1, &Some(first)),
                    g => h.ok(&format!("{}: table {} of {} rows filled {:?}", who, c, len, g), false),
                }
            }
        }
    }
    h.ok(&format!("{}: stray table cells {:?} {:?}", who, tcells, fills), tcells.is_empty() && fills.is_empty());
    // the documented strategies
    let mut occ: BTreeMap<At, Vec<(usize, usize)>> = BTreeMap::new();
    if !two {
        // each region at the earliest row below everything placed before in its columns
        let mut used: BTreeMap<At, usize> = BTreeMap::new();
        let mut placed = 0;
        for (i, r) in regs.iter().enumerate() {
            let first = r.cols.iter().map(|c| used.get(c).copied().unwrap_or(0)).max().unwrap_or(0);
            h.ok(&format!("{}: region {} placed at {}, not at {}", who, i, starts[i], first), r.cols.is_empty() || starts[i] == first);
            for c in &r.cols {
                used.insert(*c, starts[i] + r.rows);
            }
            for (j, (item, _, _)) in consts.iter().enumerate() {
                if *item == r.item && j >= placed {
                    placed = j + 1;
                    let (c, row, _) = outside[j];
                    h.ok(&format!("{}: constant {} at {:?} row {}", who, j, c, row), c == At::F(0) && row == used.get(&c).copied().unwrap_or(0));
                    used.insert(c, row + 1);
                }
            }
        }
    }
    if two {
        // largest advice area first, each at the first rows free in all its columns
        let area = |r: &Reg| r.cols.iter().filter(|c| matches!(c, At::A(_))).count() * r.rows;
        let mut order: Vec<usize> = (0..regs.len()).collect();
        order.sort_by_key(|i| area(&regs[*i]));
        order.reverse();
        for i in order {
            if regs[i].cols.is_empty() {
                continue;
            }
            let fits = |s: usize| regs[i].cols.iter().all(|c| occ.get(c).map_or(true, |v| v.iter().all(|(a, b)| s + regs[i].rows <= *a || *b <= s)));
            let first = (0..).find(|s| fits(*s)).unwrap();
            h.ok(&format!("{}: region {} placed at {}, first fit at {}", who, i, starts[i], first), starts[i] == first);
            for c in &regs[i].cols {
                occ.entry(*c).or_default().push((starts[i], starts[i] + regs[i].rows));
            }
        }
    }
}
/// start of each region, from its first assignment
fn starts(ev: &[Ev], regs: &[Reg]) -> Vec<usize> {
    regs.iter()
        .map(|r| {
            let name = format!("r{}", r.item);
            let from = ev.iter().position(|e| matches!(e, Ev::Enter(n) if *n == name));
            let first = from.and_then(|f| ev[f + 1..].iter().take_while(|e| !matches!(e, Ev::Exit)).find_map(|e| if let Ev::Set(_, r, _) = e { Some(*r) } else { None }));
            match (first, r.writes.get(0)) {
                (Some(x), Some(w)) => x.wrapping_sub(w.1),
                _ => 0,
            }
        })
        .collect()
}

pub fn p18(cx: &mut Cx) {
    let deep = tier_thorough();
    let trials = if deep { 4000 } else { 400 };
    cx.functions(&[
        "circuit::floor_planner::single_pass::{SimpleFloorPlanner::synthesize, SingleChipLayouter, SingleChipLayouterRegion}",
        "circuit::floor_planner::v1::{V1::synthesize, V1Pass, MeasurementPass, AssignmentPass, V1Region}",
        "circuit::floor_planner::v1::strategy::{slot_in_biggest_advice_first, slot_in, first_fit_region, Allocations::free_intervals}",
        "circuit::layouter::RegionShape",
        "circuit::{Region, AssignedCell, NamespacedLayouter, Table}",
    ]);
    cx.bound(&format!("{} generated programs of 1 to 7 regions of up to 6 rows over 4 advice, 3 fixed, 1 instance columns and 3 selectors, 0 to 3 constants columns, tables, both planners; every cell value symbolic", trials * 2));
    for t in 0..trials {
        cx.run(&format!("program/{}", t), |h| {
            let mut r = Rng(h.rand_u64("p"));
            for _ in 0..2 {
                let nconst = [0, 1, 1, 2, 3][r.next_u32() as usize % 5];
                let p = program(h, &mut r, nconst, t % 4 == 0);
                check(h, "simple", &p, false);
                check(h, "v1", &p, true);
            }
        });
    }
    cx.witness("a wrong value is noticed", |h| {
        let mut r = Rng(7);
        let mut p = program(h, &mut r, 1, false);
        while p.cells.iter().filter(|c| matches!(c.3, Some(Assigned::Trivial(_)))).count() == 0 {
            p = program(h, &mut r, 1, false);
        }
        let x = h.fp("other");
        for c in p.cells.iter_mut() {
            if let Some(Assigned::Trivial(_)) = c.3 {
                c.3 = Some(Assigned::Trivial(x));
                break;
            }
        }
        check(h, "v1", &p, true);
    });
}

/// what the table assignments of a program must lead to
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Want {
    Ok,
    Used,
    Overwrite,
    Gap,
    Uneven,
}
fn expected(tables: &[Vec<(usize, usize, Val)>]) -> Want {
    let mut used: BTreeSet<usize> = BTreeSet::new();
    for t in tables {
        let mut rows: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        for (c, o, _) in t {
            if used.contains(c) {
                return Want::Used;
            }
            if !rows.entry(*c).or_default().insert(*o) && *o == 0 {
                return Want::Overwrite;
            }
        }
        if rows.values().any(|r| r.iter().copied().collect::<Vec<_>>() != (0..r.len()).collect::<Vec<_>>()) {
            return Want::Gap;
        }
        if rows.values().map(|r| r.len()).collect::<BTreeSet<_>>().len() > 1 {
            return Want::Uneven;
        }
        used.extend(rows.keys());
    }
    Want::Ok
}
fn kind<T>(r: &Result<T, Error>) -> String {
    let e = match r {
        Ok(_) => return "Ok".into(),
        Err(e) => format!("{:?}", e),
    };
    for (a, b) in [("UsedColumn", "Used"), ("OverwriteDefault", "Overwrite"), ("ColumnNotAssigned", "Gap"), ("UnevenColumnLengths", "Uneven")] {
        if e.contains(a) {
            return b.into();
        }
    }
    e
}
type Params = halo2_proofs::poly::commitment::Params<crate::symgroup::GA>;
fn through_keygen<C: Circuit<Fp>>(k: u32, c: &C) -> Result<Vec<Vec<Fp>>, Error> {
    use halo2_proofs::plonk::{keygen_pk, keygen_vk};
    let params = Params::new(k);
    let vk = keygen_vk(&params, c)?;
    let pk = keygen_pk(&params, vk, c)?;
    Ok(halo2_proofs::verif::pk_view(&pk).fixed_values)
}
pub fn p19(cx: &mut Cx) {
    let deep = tier_thorough();
    cx.functions(&[
        "circuit::table_layouter::{SimpleTableLayouter::assign_cell, compute_table_lengths}",
        "SingleChipLayouter::assign_table, AssignmentPass::assign_table",
        "keygen::Assembly::{assign_fixed, fill_from_row}",
        "MockProver::{assign_fixed, fill_from_row, verify}",
    ]);
    let trials = if deep { 2000 } else { 120 };
    cx.bound(&format!("{} generated sequences of up to 3 tables over 4 table columns with up to 6 rows in any order, well formed and malformed, both planners; every table value symbolic; the resulting fixed columns and verdicts for 2^4 and 2^5 rows", trials));
    for t in 0..trials {
        cx.run(&format!("tables/{}", t), |h| {
            h.policy = PcPolicy::Path;
            let mut r = Rng(h.rand_u64("t"));
            let mut n = 0;
            let mut tables: Vec<Vec<(usize, usize, Val)>> = vec![];
            let mut free: Vec<usize> = (0..NT).collect();
            shuffle(&mut r, &mut free);
            for _ in 0..1 + r.next_u32() % 3 {
                let w = r.next_u32() as usize % (free.len().min(3) + 1);
                let len = 1 + r.next_u32() as usize % 6;
                let mut cells = vec![];
                for c in free.drain(..w) {
                    for o in 0..len {
                        let v = val(h, &mut r, &mut n);
                        cells.push((c, o, v));
                    }
                }
                shuffle(&mut r, &mut cells);
                // malformed in one of many ways
                if t % 2 == 1 && !cells.is_empty() {
                    let i = r.next_u32() as usize % cells.len();
                    match r.next_u32() % 5 {
                        0 => {
                            cells.remove(i);
                        }
                        1 => {
                            let mut c = cells[i];
                            c.1 = len + r.next_u32() as usize % 2;
                            cells.push(c);
                        }
                        2 => {
                            let c = *cells.iter().find(|c| c.1 == 0).unwrap();
                            cells.push((c.0, 0, val(h, &mut r, &mut n)));
                            shuffle(&mut r, &mut cells);
                        }
                        3 => {
                            if let Some(old) = tables.iter().flatten().next().copied() {
                                cells.insert(i, (old.0, r.next_u32() as usize % 2, old.2));
                            }
                        }
                        _ => cells[i].1 = r.next_u32() as usize % len,
                    }
                }
                tables.push(cells);
            }
            let want = expected(&tables);
            let p = Prog { items: tables.iter().cloned().map(Item::Table).collect(), ..Default::default() };
            for two in [false, true] {
                let who = if two { "v1" } else { "simple" };
                let got = kind(&plan(&p, two));
                h.ok(&format!("{}: {:?} for tables that are {:?}", who, got, want), got == format!("{:?}", want));
                // duplicates beyond row 0 overwrite: which of the values stays is not the layouter's business
                let dup = tables.iter().any(|t| {
                    let s: BTreeSet<_> = t.iter().map(|x| (x.0, x.1)).collect();
                    s.len() != t.len()
                });
                if want == Want::Ok && !dup {
                    check(h, who, &p, two);
                }
                let k = 4 + (t / 2) as u32 % 2;
                let got = if two { through_keygen(k, &Two(p.clone(), true)) } else { through_keygen(k, &Simple(p.clone(), true)) };
                h.ok(&format!("{}: key generation gives {:?} for tables that are {:?}", who, kind(&got), want), kind(&got) == format!("{:?}", want));
                if let (Ok(f), false) = (got, dup) {
                    let blinding = 5;
                    let usable = (1usize << k) - blinding - 1;
                    for c in 0..NT {
                        let own: Vec<_> = tables.iter().flatten().filter(|x| x.0 == c).collect();
                        for row in 0..usable {
                            let w = own.iter().find(|x| x.1 == row).or_else(|| own.iter().find(|x| x.1 == 0)).map_or(Fp::zero(), |x| x.2.evaluate());
                            h.eq(&format!("{}: table column {} row {}", who, c, row), f[NF + c][row], w);
                        }
                    }
                }
            }
        });
    }
    // a table needs room
    cx.run("room", |h| {
        for len in [9usize, 11, 12, 15, 16, 17, 40] {
            let p = Prog { items: vec![Item::Table((0..len).map(|o| (0, o, Assigned::Trivial(Fp::from(o as u64)))).collect())], ..Default::default() };
            for two in [false, true] {
                let got = if two { through_keygen(4, &Two(p.clone(), true)) } else { through_keygen(4, &Simple(p.clone(), true)) };
                h.ok(&format!("a table of {} rows in 10: {}", len, kind(&got)), if len < 10 { got.is_ok() } else { kind(&got).contains("NotEnoughRowsAvailable") });
            }
        }
    });
    // lookups see exactly the assigned entries: the padding adds none
    for t in 0..if deep { 200 } else { 40 } {
        cx.run(&format!("lookup/{}", t), |h| {
            h.policy = PcPolicy::Path;
            let mut r = Rng(h.rand_u64("t"));
            let len = 1 + r.next_u32() as usize % 5;
            let vals: Vec<(Fp, Fp)> = (0..len).map(|i| (h.fp(&format!("a{}", i)), h.fp(&format!("b{}", i)))).collect();
            let other = h.fp("other");
            let i = r.next_u32() as usize % len;
            let j = r.next_u32() as usize % len;
            let cases = [((vals[i].0, vals[i].1), true), ((vals[i].0, vals[j].1), i == j), ((other, vals[i].1), false), ((Fp::zero(), Fp::zero()), false), ((vals[0].0, other), false)];
            for (q, want) in cases {
                for two in [false, true] {
                    let c = Look { table: vals.clone(), q, row: r.next_u32() as usize % 10 };
                    let p = if two { halo2_proofs::dev::MockProver::run(4, &Look2(c), vec![]) } else { halo2_proofs::dev::MockProver::run(4, &Look1(c), vec![]) };
                    match p {
                        Ok(p) => h.ok(&format!("lookup accepted: {}, in the table: {}", p.verify().is_ok(), want), p.verify().is_ok() == want),
                        Err(e) => h.ok(&format!("{:?}", e), false),
                    }
                }
            }
        });
    }
    cx.witness("a wrong filling is noticed", |h| {
        let v: Vec<Fp> = (0..3).map(|i| h.fp(&format!("v{}", i))).collect();
        let p = Prog { items: vec![Item::Table((0..3).map(|o| (0, o, Assigned::Trivial(v[o]))).collect())], ..Default::default() };
        let f = through_keygen(4, &Simple(p, true)).unwrap();
        h.eq("row 4", f[NF][4], v[1]);
    });
}
#[derive(Clone)]
struct Look {
    table: Vec<(Fp, Fp)>,
    q: (Fp, Fp),
    row: usize,
}
macro_rules! look {
    ($name:ident, $fp:ty) => {
        struct $name(Look);
        impl Circuit<Fp> for $name {
            type Config = (Column<Advice>, Column<Advice>, TableColumn, TableColumn, Selector);
            type FloorPlanner = $fp;
            fn without_witnesses(&self) -> Self {
                $name(self.0.clone())
            }
            fn configure(m: &mut ConstraintSystem<Fp>) -> Self::Config {
                let c = (m.advice_column(), m.advice_column(), m.lookup_table_column(), m.lookup_table_column(), m.complex_selector());
                let first = Fp::one();
                let _ = first;
                m.lookup(|v| {
                    use halo2_proofs::plonk::Expression;
                    let (a, b, s) = (v.query_advice(c.0, rot(0)), v.query_advice(c.1, rot(0)), v.query_selector(c.4));
                    // switched off, the lookup asks for the entry (7, 9), which the circuit adds to the table
                    let off = Expression::Constant(Fp::one()) - s.clone();
                    vec![(s.clone() * a + off.clone() * Fp::from(7), c.2), (s * b + off * Fp::from(9), c.3)]
                });
                c
            }
            fn synthesize(&self, c: Self::Config, mut l: impl Layouter<Fp>) -> Result<(), Error> {
                l.assign_table(
                    || "t",
                    |mut t| {
                        for (i, (a, b)) in self.0.table.iter().chain([(Fp::from(7), Fp::from(9))].iter()).enumerate() {
                            t.assign_cell(|| "", c.3, i, || Value::known(*b))?;
                            t.assign_cell(|| "", c.2, i, || Value::known(*a))?;
                        }
                        Ok(())
                    },
                )?;
                l.assign_region(
                    || "q",
                    |mut r| {
                        // other cells of the region hold the always present entry
                        c.4.enable(&mut r, self.0.row)?;
                        r.assign_advice(|| "", c.0, self.0.row, || Value::known(self.0.q.0))?;
                        r.assign_advice(|| "", c.1, self.0.row, || Value::known(self.0.q.1))?;
                        Ok(())
                    },
                )
            }
        }
    };
}
look!(Look1, SimpleFloorPlanner);
look!(Look2, V1);
