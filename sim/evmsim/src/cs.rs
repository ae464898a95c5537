//! The constraint system, as far as it can be seen from outside: row constraints, lookups within
//! and between tables.
use evm_arithmetization::verif_hooks::starks;
use evm_arithmetization::AllStark;
use crate::dual::{constraints, Dual};
use plonky2::field::goldilocks_field::GoldilocksField as F;
use plonky2::field::packed::PackedField;
use plonky2::field::types::{Field, PrimeField64};
use starky::constraint_consumer::ConstraintConsumer;
use std::collections::BTreeMap;

/// What `{:?}` shows of a value.
#[derive(Debug, Clone)]
pub enum V {
    N(u64),
    L(Vec<V>),
    S(BTreeMap<String, V>),
}
impl V {
    pub fn parse(s: &str) -> V {
        let b: Vec<char> = s.chars().filter(|c| !c.is_whitespace()).collect();
        let mut i = 0;
        let v = Self::value(&b, &mut i);
        assert_eq!(i, b.len());
        v
    }
    fn value(b: &[char], i: &mut usize) -> V {
        match b[*i] {
            '[' | '(' => {
                *i += 1;
                let mut l = vec![];
                while b[*i] != ']' && b[*i] != ')' {
                    l.push(Self::value(b, i));
                    if b[*i] == ',' {
                        *i += 1;
                    }
                }
                *i += 1;
                V::L(l)
            }
            c if c.is_ascii_digit() => {
                let mut n = 0u64;
                while *i < b.len() && b[*i].is_ascii_digit() {
                    n = n * 10 + b[*i].to_digit(10).unwrap() as u64;
                    *i += 1;
                }
                V::N(n)
            }
            _ => {
                while b[*i] != '{' && b[*i] != '(' {
                    *i += 1;
                }
                if b[*i] == '(' {
                    return Self::value(b, i);
                }
                *i += 1;
                let mut m = BTreeMap::new();
                while b[*i] != '}' {
                    let a = *i;
                    while b[*i] != ':' {
                        *i += 1;
                    }
                    let name = b[a..*i].iter().collect();
                    *i += 1;
                    m.insert(name, Self::value(b, i));
                    if b[*i] == ',' {
                        *i += 1;
                    }
                }
                *i += 1;
                V::S(m)
            }
        }
    }
    pub fn get(&self, k: &str) -> &V {
        match self {
            V::S(m) => m.get(k).unwrap_or_else(|| panic!("no {k}")),
            _ => panic!("no {k}"),
        }
    }
    pub fn list(&self) -> &[V] {
        match self {
            V::L(l) => l,
            _ => panic!("no list"),
        }
    }
    pub fn num(&self) -> u64 {
        match self {
            V::N(n) => *n,
            V::L(l) if l.len() == 1 => l[0].num(),
            _ => panic!("no number"),
        }
    }
    /// All numbers below.
    pub fn all(&self) -> Vec<usize> {
        match self {
            V::N(n) => vec![*n as usize],
            V::L(l) => l.iter().flat_map(|v| v.all()).collect(),
            V::S(m) => m.values().flat_map(|v| v.all()).collect(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Col {
    pub lin: Vec<(usize, F)>,
    pub next: Vec<(usize, F)>,
    pub k: F,
}
impl Col {
    fn new(v: &V) -> Col {
        let pairs = |v: &V| v.list().iter().map(|p| (p.list()[0].num() as usize, F::from_noncanonical_u64(p.list()[1].num()))).collect();
        Col { lin: pairs(v.get("linear_combination")), next: pairs(v.get("next_row_linear_combination")), k: F::from_noncanonical_u64(v.get("constant").num()) }
    }
    pub fn eval<P: PackedField<Scalar = F>>(&self, l: &[P], n: &[P]) -> P {
        let mut s = P::from(self.k);
        for (c, f) in &self.lin {
            s += l[*c] * *f;
        }
        for (c, f) in &self.next {
            s += n[*c] * *f;
        }
        s
    }
}
#[derive(Clone, Debug)]
pub struct Filt {
    prod: Vec<(Col, Col)>,
    con: Vec<Col>,
}
impl Filt {
    fn new(v: &V) -> Filt {
        Filt {
            prod: v.get("products").list().iter().map(|p| (Col::new(&p.list()[0]), Col::new(&p.list()[1]))).collect(),
            con: v.get("constants").list().iter().map(Col::new).collect(),
        }
    }
    pub fn eval<P: PackedField<Scalar = F>>(&self, l: &[P], n: &[P]) -> P {
        self.prod.iter().map(|(a, b)| a.eval(l, n) * b.eval(l, n)).sum::<P>() + self.con.iter().map(|c| c.eval(l, n)).sum::<P>()
    }
}
impl Filt {
    /// The columns of the row that it looks at.
    pub fn columns(&self) -> Vec<usize> {
        self.prod.iter().flat_map(|(a, b)| [a, b]).chain(&self.con).flat_map(|col| col.lin.iter().map(|l| l.0)).collect()
    }
    pub fn uses(&self, c: usize) -> bool {
        self.columns().contains(&c)
    }
}
#[derive(Clone, Debug)]
pub struct Side {
    pub table: usize,
    pub cols: Vec<Col>,
    pub filter: Filt,
}
impl Side {
    fn new(v: &V) -> Side {
        Side { table: v.get("table").num() as usize, cols: v.get("columns").list().iter().map(Col::new).collect(), filter: Filt::new(v.get("filter")) }
    }
}
#[derive(Clone, Debug)]
pub struct Ctl {
    pub looking: Vec<Side>,
    pub looked: Side,
}
#[derive(Clone, Debug)]
pub struct Look {
    pub cols: Vec<Col>,
    pub filters: Vec<Filt>,
    pub table: Col,
    pub freq: Col,
}
pub struct System {
    pub all: AllStark<F, 2>,
    pub ctls: Vec<Ctl>,
    pub lookups: Vec<Vec<Look>>,
    /// Names of columns, by table.
    pub names: BTreeMap<usize, V>,
    sides: Vec<Vec<(usize, Side, bool)>>,
}
pub const TABLES: usize = 9;
pub const NAMES: [&str; TABLES] = ["Arithmetic", "BytePacking", "Cpu", "Keccak", "KeccakSponge", "Logic", "Memory", "MemBefore", "MemAfter"];
pub const ARITHMETIC: usize = 0;
pub const PACKING: usize = 1;
pub const CPU: usize = 2;
pub const KECCAK: usize = 3;
pub const SPONGE: usize = 4;
pub const LOGIC: usize = 5;
pub const MEMORY: usize = 6;
pub const BEFORE: usize = 7;
pub const AFTER: usize = 8;

impl System {
    pub fn new() -> System {
        let all = AllStark::<F, 2>::default();
        let ctls = starks::cross_table_lookups(&all)
            .iter()
            .map(|c| {
                let v = V::parse(&format!("{c:?}"));
                Ctl { looking: v.get("looking_tables").list().iter().map(Side::new).collect(), looked: Side::new(v.get("looked_table")) }
            })
            .collect();
        let lookups = (0..TABLES)
            .map(|t| {
                starks::lookups(&all, t)
                    .iter()
                    .map(|l| Look {
                        cols: l.columns.iter().map(|c| Col::new(&V::parse(&format!("{c:?}")))).collect(),
                        filters: l.filter_columns.iter().map(|c| Filt::new(&V::parse(&format!("{c:?}")))).collect(),
                        table: Col::new(&V::parse(&format!("{:?}", l.table_column))),
                        freq: Col::new(&V::parse(&format!("{:?}", l.frequencies_column))),
                    })
                    .collect()
            })
            .collect();
        let names = (0..TABLES).map(|t| (t, starks::columns(t))).filter(|(_, s)| !s.is_empty()).map(|(t, s)| (t, V::parse(&s))).collect();
        let ctls: Vec<Ctl> = ctls;
        let sides = (0..TABLES)
            .map(|t| {
                ctls.iter()
                    .enumerate()
                    .flat_map(|(i, c)| c.looking.iter().map(move |l| (i, l.clone(), true)).chain([(i, c.looked.clone(), false)]))
                    .filter(|(_, s, _)| s.table == t)
                    .collect()
            })
            .collect();
        System { all, ctls, lookups, names, sides }
    }
    /// The sides of lookups in a table: (lookup, side, whether it is the one that asks).
    pub fn sides(&self, t: usize) -> &[(usize, Side, bool)] {
        &self.sides[t]
    }
    /// All constraints on a row and its successor.
    pub fn eval<const N: usize>(&self, t: usize, l: &[Dual<N>], n: &[Dual<N>], first: bool, last: bool) -> Vec<Dual<N>> {
        constraints(first, last, |c| starks::eval_row(&self.all, t, l, n, c))
    }
    /// Whether they hold, to combinations of them.
    pub fn holds(&self, t: usize, l: &[F], n: &[F], alphas: &[F], first: bool, last: bool) -> bool {
        let mut c = ConstraintConsumer::new(alphas.to_vec(), F::from_bool(!last), F::from_bool(first), F::from_bool(last));
        starks::eval_row(&self.all, t, l, n, &mut c);
        c.accumulators().iter().all(|v| v.is_zero())
    }
}
/// Invert all, none of which is zero.
pub fn invert(v: &[F]) -> Vec<F> {
    F::batch_multiplicative_inverse(v)
}
pub fn u(x: F) -> u64 {
    x.to_canonical_u64()
}
