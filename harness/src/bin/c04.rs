use banyan::query::*;
use banyan::{index::*, StreamBuilder};
use bmon::{query::*, runner, sess::*, types::*, *};
use rand::Rng;

/// a sound query of unusual precision: prunes some subtrees without matches, by a hash
#[derive(Debug, Clone)]
struct Odd(Q, u64);
impl Query<TT> for Odd {
    fn containing(&self, o: u64, x: &LeafIndex<TT>, res: &mut [bool]) {
        for (i, (r, k)) in res.iter_mut().zip(x.keys.as_ref()).enumerate() {
            *r = *r && self.0.has(o + i as u64, k);
        }
    }
    fn intersecting(&self, o: u64, x: &BranchIndex<TT>, res: &mut [bool]) {
        for (i, (r, s)) in res.iter_mut().zip(x.summaries.as_ref()).enumerate() {
            let key_part = match &self.0 {
                Q::Cls(_) | Q::Bucket(..) => self.0.may(o, x.count, s),
                q @ (Q::Range(..) | Q::Empty) => q.may(o, x.count, s),
                _ => true,
            };
            if !key_part && (o + i as u64 + self.1) % 3 != 0 {
                *r = false;
            }
        }
    }
}
fn all(c: &mut Case, s: &Sess, f: &F, t: &T, q: &Q, bq: BQ, what: &str) -> Res<Vec<Triple>> {
    let want = expected(&s.model, q);
    let rev: Vec<_> = want.iter().rev().cloned().collect();
    let max = s.n() as usize + 1;
    let w = |x: &str| format!("{what} {x} of {q:?}");
    same_triples(&drain(f.iter_filtered(t, bq.clone()), max, &w("iter_filtered"))?, &want, &w("iter_filtered"))?;
    same_triples(
        &drain(f.iter_filtered_reverse(t, bq.clone()), max, &w("iter_filtered_reverse"))?,
        &rev,
        &w("iter_filtered_reverse"),
    )?;
    same_triples(
        &drain_stream(f.stream_filtered(t, bq.clone()), max, &w("stream_filtered"))?,
        &want,
        &w("stream_filtered"),
    )?;
    if c.rng.gen_bool(0.3) {
        let ch = drain_stream(f.stream_filtered_chunked(t, bq.clone(), &|_| ()), 5 * max + 50, &w("chunked"))?;
        same_triples(&ch.into_iter().flat_map(|c| c.data).collect::<Vec<_>>(), &want, &w("stream_filtered_chunked"))?;
        let ch = drain_stream(f.stream_filtered_chunked_reverse(t, bq, &|_| ()), 5 * max + 50, &w("chunked rev"))?;
        same_triples(&ch.into_iter().rev().flat_map(|c| c.data).collect::<Vec<_>>(), &want, &w("stream_filtered_chunked_reverse"))?;
    }
    c.count("queries", 1);
    c.count("matches", want.len() as u64);
    if !want.is_empty() && want.len() < s.n() as usize {
        c.count("selective_queries", 1);
        c.nontrivial = true;
    }
    Ok(want)
}
fn case(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    let w = if c.rng.gen_bool(0.3) { Weights::ALL } else { Weights::NO_RETAIN };
    let ops = c.rng.gen_range(1..=12);
    let r = s.run(&mut c.rng, &w, ops);
    c.desc = s.describe();
    r?;
    let (t, f, n) = (s.tree(), (*s.txn).clone(), s.n());
    let mut other = None;
    if !s.model.iter().any(|x| x.is_none()) && n > 0 {
        // the same elements in a tree that was built in another way
        let cfg = gen::config(&mut c.rng);
        let cfg = banyan::Config {
            max_uncompressed_leaf_size: s.cfg.max_uncompressed_leaf_size,
            zstd_level: 1,
            ..cfg
        };
        let mut b: Builder = StreamBuilder::new(cfg, s.secrets.clone());
        let mut tx = txn(&s.store, s.cache);
        let els: Vec<_> = s.model.iter().flatten().cloned().collect();
        let cut = c.rng.gen_range(0..=els.len());
        ok(tx.extend(&mut b, els[..cut].to_vec()), "extend")?;
        if c.rng.gen() {
            ok(tx.extend(&mut b, els[cut..].to_vec()), "extend")?;
        } else {
            ok(tx.extend_unpacked(&mut b, els[cut..].to_vec()), "extend_unpacked")?;
        }
        other = Some((b.snapshot(), (*tx).clone()));
    }
    for _ in 0..6 {
        let q = Q::gen(&mut c.rng, n, s.gen.bucket, 3);
        c.desc = format!("{} query={q:?}", s.describe());
        let want = all(c, &s, &f, &t, &q, q.build(), "")?;
        if let Some((t, f)) = &other {
            all(c, &s, f, t, &q, q.build(), "other tree")?;
        }
        if c.rng.gen_bool(0.3) {
            let odd = Odd(q.clone(), c.rng.gen());
            all(c, &s, &f, &t, &q, odd.boxed(), "odd query")?;
        }
        // conjunction and disjunction against the sets of the parts
        let p = Q::gen(&mut c.rng, n, s.gen.bucket, 1);
        let got_p: std::collections::HashSet<u64> =
            drain(f.iter_filtered(&t, p.build()), n as usize + 1, "part")?.into_iter().map(|x| x.0).collect();
        let got_q: std::collections::HashSet<u64> = want.iter().map(|x| x.0).collect();
        let and: std::collections::HashSet<u64> =
            drain(f.iter_filtered(&t, AndQuery(q.build(), p.build()).boxed()), n as usize + 1, "and")?.into_iter().map(|x| x.0).collect();
        let or: std::collections::HashSet<u64> =
            drain(f.iter_filtered(&t, OrQuery(q.build(), p.build()).boxed()), n as usize + 1, "or")?.into_iter().map(|x| x.0).collect();
        check!(and == got_p.intersection(&got_q).cloned().collect(), "and of {p:?} and {q:?} is not the intersection");
        check!(or == got_p.union(&got_q).cloned().collect(), "or of {p:?} and {q:?} is not the union");
    }
    // plain (not boxed) offset ranges
    let (a, b) = (c.rng.gen_range(0..=n + 1), c.rng.gen_range(0..=n + 1));
    let e = |q: Q| expected(&s.model, &q);
    let max = n as usize + 1;
    same_triples(&drain(f.iter_filtered(&t, OffsetRangeQuery::from(a..b)), max, "a..b")?, &e(Q::range(a, b)), "a..b")?;
    same_triples(&drain(f.iter_filtered(&t, OffsetRangeQuery::from(a..)), max, "a..")?, &e(Q::range(a, u64::MAX)), "a..")?;
    same_triples(&drain(f.iter_filtered(&t, OffsetRangeQuery::from(..b)), max, "..b")?, &e(Q::range(0, b)), "..b")?;
    same_triples(&drain(f.iter_filtered(&t, OffsetRangeQuery::from(a..=u64::MAX)), max, "a..=max")?, &e(Q::range(a, u64::MAX)), "a..=max")?;
    same_triples(&drain(f.iter_filtered(&t, EmptyQuery), max, "empty")?, &[], "EmptyQuery")?;
    same_triples(&drain(f.iter_filtered(&t, AllQuery), max, "all")?, &e(Q::All), "AllQuery")?;
    if let Some(w) = s.walk()? {
        c.saw(w.shape());
        c.max("depth", w.depth() as u64);
    }
    Ok(())
}
fn main() {
    runner::main(Prop {
        require: &[("queries", 10_000), ("selective_queries", 3000), ("matches", 50_000)],
        ..Prop::new("C04", "random trees (all operations, also with forgotten data) and random queries (offset ranges of all bound kinds, class and bucket queries with exact summaries, id queries without, unions, intersections, queries with erratic but sound pruning); results of iteration and streaming in both directions are compared with a reference evaluation on the list of elements, on a second tree of the same elements, and with set operations on the results of parts; non-trivial: a query selected some but not all elements; distinct: tree shape", case)
    });
}
