//! Query specifications: a reference predicate on (offset, key), and the same query built
//! from banyan's combinators.
use crate::types::{Key, Sum, TT};
use banyan::{
    index::{BranchIndex, LeafIndex},
    query::*,
};
use parking_lot::Mutex;
use rand::Rng;
use std::{ops::Bound, sync::Arc};

pub type BQ = Arc<dyn Query<TT>>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Q {
    All,
    Empty,
    Range(Bound<u64>, Bound<u64>),
    /// class is in the mask
    Cls(u64),
    /// bucket in lo..=hi
    Bucket(u64, u64),
    /// id % m == r (can not be seen in summaries)
    Id(u64, u64),
    And(Box<Q>, Box<Q>),
    Or(Box<Q>, Box<Q>),
}
impl Q {
    pub fn range(a: u64, b: u64) -> Q {
        Q::Range(Bound::Included(a), Bound::Excluded(b))
    }
    pub fn has(&self, o: u64, k: &Key) -> bool {
        match self {
            Q::All => true,
            Q::Empty => false,
            Q::Range(a, b) => {
                (match a {
                    Bound::Included(a) => o >= *a,
                    Bound::Excluded(a) => o > *a,
                    Bound::Unbounded => true,
                }) && (match b {
                    Bound::Included(b) => o <= *b,
                    Bound::Excluded(b) => o < *b,
                    Bound::Unbounded => true,
                })
            }
            Q::Cls(m) => m & (1 << k.c) != 0,
            Q::Bucket(lo, hi) => k.b >= *lo && k.b <= *hi,
            Q::Id(m, r) => k.id % m == *r,
            Q::And(a, b) => a.has(o, k) && b.has(o, k),
            Q::Or(a, b) => a.has(o, k) || b.has(o, k),
        }
    }
    /// can a subtree with this offset range and summary contain a match? (reference for the
    /// precision of range and key predicates; range bounds judged like the element test)
    pub fn may(&self, start: u64, count: u64, s: &Sum) -> bool {
        match self {
            Q::All => true,
            Q::Empty => false,
            Q::Range(a, b) => {
                let lo = match a {
                    Bound::Included(a) => *a as u128,
                    Bound::Excluded(a) => *a as u128 + 1,
                    Bound::Unbounded => 0,
                };
                let hi = match b {
                    Bound::Included(b) => *b as u128 + 1,
                    Bound::Excluded(b) => *b as u128,
                    Bound::Unbounded => u128::MAX,
                };
                lo.max(start as u128) < hi.min(start as u128 + count as u128)
            }
            Q::Cls(m) => m & s.m != 0,
            Q::Bucket(lo, hi) => lo <= hi && s.hi >= *lo && s.lo <= *hi,
            Q::Id(..) => true,
            Q::And(a, b) => a.may(start, count, s) && b.may(start, count, s),
            Q::Or(a, b) => a.may(start, count, s) || b.may(start, count, s),
        }
    }
    pub fn build(&self) -> BQ {
        match self {
            Q::All => AllQuery.boxed(),
            Q::Empty => EmptyQuery.boxed(),
            Q::Range(a, b) => {
                // use the concrete range types a user would use
                match (*a, *b) {
                    (Bound::Included(a), Bound::Excluded(b)) => {
                        OffsetRangeQuery::from(a..b).boxed()
                    }
                    (Bound::Included(a), Bound::Included(b)) => {
                        OffsetRangeQuery::from(a..=b).boxed()
                    }
                    (Bound::Included(a), Bound::Unbounded) => OffsetRangeQuery::from(a..).boxed(),
                    (Bound::Unbounded, Bound::Excluded(b)) => OffsetRangeQuery::from(..b).boxed(),
                    (Bound::Unbounded, Bound::Included(b)) => OffsetRangeQuery::from(..=b).boxed(),
                    (Bound::Unbounded, Bound::Unbounded) => OffsetRangeQuery::from(..).boxed(),
                    (a, b) => OffsetRangeQuery::from((a, b)).boxed(),
                }
            }
            Q::And(a, b) => AndQuery(a.build(), b.build()).boxed(),
            Q::Or(a, b) => OrQuery(a.build(), b.build()).boxed(),
            _ => Arc::new(KeyQ(self.clone())),
        }
    }
    /// does the query contain only parts for which summaries are exact
    pub fn gen(rng: &mut impl Rng, n: u64, max_b: u64, depth: u32) -> Q {
        let x = rng.gen_range(0..if depth == 0 { 70 } else { 100 });
        match x {
            0..=2 => Q::All,
            3..=4 => Q::Empty,
            5..=34 => Q::gen_range(rng, n),
            35..=47 => Q::Cls(match rng.gen_range(0..4) {
                0 => 1 << rng.gen_range(0..8),
                1 => 0,
                _ => rng.gen_range(0..256),
            }),
            48..=60 => {
                let a = rng.gen_range(0..=max_b + 1);
                let w = if rng.gen() { 0 } else { rng.gen_range(0..=max_b + 1) };
                Q::Bucket(a, a + w)
            }
            61..=69 => {
                let m = rng.gen_range(1..8);
                Q::Id(m, rng.gen_range(0..m))
            }
            70..=84 => Q::And(
                Box::new(Q::gen(rng, n, max_b, depth - 1)),
                Box::new(Q::gen(rng, n, max_b, depth - 1)),
            ),
            _ => Q::Or(
                Box::new(Q::gen(rng, n, max_b, depth - 1)),
                Box::new(Q::gen(rng, n, max_b, depth - 1)),
            ),
        }
    }
    pub fn gen_range(rng: &mut impl Rng, n: u64) -> Q {
        let a = rng.gen_range(0..=n + 2);
        let b = match rng.gen_range(0..6) {
            0 => a,
            1 => a + 1,
            2 => rng.gen_range(0..=n + 2), // possibly empty / reversed
            3 if rng.gen_bool(0.2) => u64::MAX,
            _ => rng.gen_range(a..=n + 3),
        };
        let lo = match rng.gen_range(0..6) {
            0 => Bound::Unbounded,
            1 | 2 => Bound::Excluded(a),
            _ => Bound::Included(a),
        };
        let hi = match rng.gen_range(0..6) {
            0 => Bound::Unbounded,
            1 | 2 => Bound::Included(b),
            _ => Bound::Excluded(b),
        };
        Q::Range(lo, hi)
    }
}

/// a key query as a user would write it: exact on keys, conservative on summaries.
#[derive(Clone, Debug)]
pub struct KeyQ(pub Q);
impl KeyQ {
    fn sum(&self, s: &Sum) -> bool {
        match &self.0 {
            Q::Cls(m) => m & s.m != 0,
            Q::Bucket(lo, hi) => lo <= hi && s.hi >= *lo && s.lo <= *hi,
            _ => true,
        }
    }
}
impl Query<TT> for KeyQ {
    fn containing(&self, _: u64, x: &LeafIndex<TT>, res: &mut [bool]) {
        for (r, k) in res.iter_mut().zip(x.keys.as_ref()) {
            *r = *r && self.0.has(0, k);
        }
    }
    fn intersecting(&self, _: u64, x: &BranchIndex<TT>, res: &mut [bool]) {
        for (r, s) in res.iter_mut().zip(x.summaries.as_ref()) {
            *r = *r && self.sum(s);
        }
    }
}

/// records at which offsets a query was evaluated for which node, and what it answered
#[derive(Debug, Clone)]
pub struct Asked {
    pub link: Option<crate::types::Lnk>,
    pub offset: u64,
    pub count: u64,
    pub level: u32,
    pub res: Vec<bool>,
}
#[derive(Clone)]
pub struct Spy(pub BQ, pub Arc<Mutex<Vec<Asked>>>);
impl Spy {
    pub fn new(q: BQ) -> Self {
        Spy(q, Default::default())
    }
    pub fn take(&self) -> Vec<Asked> {
        std::mem::take(&mut *self.1.lock())
    }
}
impl std::fmt::Debug for Spy {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Spy({:?})", self.0)
    }
}
impl Query<TT> for Spy {
    fn containing(&self, o: u64, x: &LeafIndex<TT>, res: &mut [bool]) {
        self.0.containing(o, x, res);
        self.1.lock().push(Asked {
            link: x.link,
            offset: o,
            count: x.keys.as_ref().len() as u64,
            level: 0,
            res: res.to_vec(),
        });
    }
    fn intersecting(&self, o: u64, x: &BranchIndex<TT>, res: &mut [bool]) {
        self.0.intersecting(o, x, res);
        self.1.lock().push(Asked {
            link: x.link,
            offset: o,
            count: x.count,
            level: x.level,
            res: res.to_vec(),
        });
    }
}
