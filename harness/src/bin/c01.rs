use bmon::{gen, query::Q, runner, sess::*, types::*, *};
use rand::{seq::SliceRandom, Rng};

fn reads(c: &mut Case, s: &mut Sess) -> Res {
    let n = s.n();
    let t = s.tree();
    let f = (*s.txn).clone();
    check!(s.b.count() == n, "count is {} instead of {}", s.b.count(), n);
    check!(t.count() == n, "snapshot count is {} instead of {}", t.count(), n);
    check!(s.b.is_empty() == (n == 0), "is_empty is wrong");
    let want = expected(&s.model, &Q::All);
    let rev: Vec<_> = want.iter().rev().cloned().collect();
    same(&ok(f.collect(&t), "collect")?, &s.model, "collect")?;
    let o = c.rng.gen_range(0..=n + 1);
    same(
        &ok(f.collect_from(&t, o), "collect_from")?,
        &s.model[(o.min(n)) as usize..],
        &format!("collect_from({o})"),
    )?;
    // all offsets for small trees, some for large ones
    let mut offs: Vec<u64> = (0..n).collect();
    offs.shuffle(&mut c.rng);
    offs.truncate(40);
    offs.extend([0, n.saturating_sub(1), n, n + 1, u64::MAX]);
    for o in offs {
        let g = ok(f.get(&t, o), "get")?;
        let w = s.model.get(o as usize).cloned().flatten();
        check!(g == w, "get({o}) returned {g:?} instead of {w:?}");
    }
    let max = n as usize + 1;
    let q = Q::All.build();
    same_triples(&drain(f.iter_from(&t), max, "iter_from")?, &want, "iter_from")?;
    same_triples(&drain(f.iter_filtered(&t, q.clone()), max, "iter")?, &want, "iter_filtered")?;
    same_triples(
        &drain(f.iter_filtered_reverse(&t, q.clone()), max, "rev")?,
        &rev,
        "iter_filtered_reverse",
    )?;
    same_triples(
        &drain_stream(f.stream_filtered(&t, q.clone()), max, "stream")?,
        &want,
        "stream_filtered",
    )?;
    let nodes = 4 * max + 100;
    let ch = drain(f.iter_filtered_chunked(&t, q.clone(), &|_| ()), nodes, "chunked")?;
    let flat: Vec<_> = ch.into_iter().flat_map(|c| c.data).collect();
    same_triples(&flat, &want, "iter_filtered_chunked")?;
    let ch = drain_stream(
        f.stream_filtered_chunked_reverse(&t, q.clone(), &|_| ()),
        nodes,
        "chunked_reverse",
    )?;
    let flat: Vec<_> = ch.into_iter().rev().flat_map(|c| c.data).collect();
    same_triples(&flat, &want, "stream_filtered_chunked_reverse")?;
    let got = drain_stream(
        f.stream_trees(q, futures::stream::iter(vec![t.clone()])),
        max,
        "stream_trees",
    )?;
    same_triples(&got, &want, "stream_trees")?;
    if let Some(w) = s.walk()? {
        let d = w.depth() as u64;
        c.max("depth", d);
        c.saw((w.shape(), s.cfg.max_leaf_count));
        c.nontrivial = w.children.len() > 1;
        c.max("children", w.nodes().iter().map(|n| n.children.len()).max().unwrap_or(0) as u64);
        c.max("leaf_bytes", w.leaves().iter().filter_map(|l| l.block().map(|b| b.plain.len())).max().unwrap_or(0) as u64);
        c.count("blocks_decoded", w.nodes().len() as u64);
        same(&w.elements(), &s.model, "independently decoded blocks")?;
    }
    c.max("elements", n);
    c.count("elements_compared", n * 9);
    Ok(())
}

/// known finding: cbor-data's scanner panics on chunked strings inside of arrays and maps
fn chunked_string(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    s.cfg.max_uncompressed_leaf_size = 5000;
    s.cfg.target_leaf_size = 5000;
    s.b = banyan::StreamBuilder::new(s.cfg.clone(), s.secrets.clone());
    let k = s.gen.key(&mut c.rng);
    let v = Val(vec![0x83, 0x5f, 0x41, 7, 0xff, 1, 2]);
    let r = runner::guarded(|| s.must(&Op::Push(El { k, v })));
    match r {
        Err(Fail(m)) if m.contains("cbor-data") && m.contains("validated/mod.rs") => {
            c.known.push("appending a value with a chunked byte string inside of an array panics in cbor-data 0.8.13 validated/mod.rs skip_bytes".into());
            Ok(())
        }
        Err(e) => Err(e),
        Ok(()) => reads(c, &mut s),
    }
}

fn case(c: &mut Case) -> Res {
    if c.index == 0 {
        return chunked_string(c);
    }
    let mut s = Sess::new(&mut c.rng);
    // some cases are bulky: wide nodes, deep trees, big leaves
    match c.rng.gen_range(0..100) {
        0..=3 if s.cfg.zstd_level <= 3 => s.scale = 3000,
        4 => {
            // leaves beyond the size of the thread-local decompression buffer
            s.cfg.max_uncompressed_leaf_size = 16 << 20;
            s.cfg.target_leaf_size = 1 << 20;
            s.cfg.max_leaf_count = 1 << 14;
            s.cfg.zstd_level = c.rng.gen_range(1..4);
            s.b = banyan::StreamBuilder::new(s.cfg.clone(), s.secrets.clone());
            s.gen.max_value = 6 << 20;
            let n = c.rng.gen_range(2..5);
            let mut els = vec![];
            for _ in 0..n {
                let k = s.gen.key(&mut c.rng);
                let mut v = vec![];
                gen::bytes(&vec![k.id as u8; c.rng.gen_range(1 << 20..5 << 20)], &mut v);
                els.push(El { k, v: Val(v) });
            }
            s.must(&Op::Extend(els))?;
            s.gen.max_value = 500;
        }
        7 | 8 => {
            s.noisy(&mut c.rng);
            c.count("with_big_values", 1);
        }
        6 if c.index % 16 == 6 => {
            // the highest compression levels are slow
            s.cfg.zstd_level = c.rng.gen_range(13..=22);
            s.b = banyan::StreamBuilder::new(s.cfg.clone(), s.secrets.clone());
            let e = s.gen.els(&mut c.rng, 3);
            s.must(&Op::Extend(e))?;
            let e = s.gen.els(&mut c.rng, 2);
            s.must(&Op::Extend(e))?;
            c.desc = s.describe();
            return reads(c, &mut s);
        }
        5 => {
            // deeply nested values
            let k = s.gen.key(&mut c.rng);
            let d = c.rng.gen_range(1..100usize);
            let mut v = vec![0x81; d];
            gen::link(&gen::cid(&mut c.rng), &mut v);
            if v.len() <= s.gen.max_value {
                s.must(&Op::Push(El { k, v: Val(v) }))?;
            }
        }
        _ => {}
    }
    let ops = c.rng.gen_range(1..=14);
    let mut w = Weights::APPEND;
    if c.rng.gen_bool(0.3) {
        w.pack = 2;
    }
    let unpacked = c.rng.gen_bool(0.15);
    if unpacked {
        w.unpacked = 30;
    }
    for i in 0..ops {
        if c.rng.gen_bool(0.02) && s.relocate(&mut c.rng)?.is_some() {
            c.count("continued_far_away", 1);
        }
        let op = s.op(&mut c.rng, &w);
        c.count(op.kind(), 1);
        let r = s.must(&op);
        c.desc = s.describe();
        r?;
        if i + 1 == ops || c.rng.gen_bool(0.15) {
            reads(c, &mut s)?;
        }
    }
    // the same content through a freshly loaded tree and another cache
    if s.can_reload() {
        let f = forest(&s.store, cache_size(&mut c.rng));
        let t: T = ok(f.load_tree(s.secrets.clone(), s.b.link().unwrap()), "load_tree")?;
        same(&ok(f.collect(&t), "collect")?, &s.model, "collect after load_tree")?;
        let x = c.rng.gen_range(0..s.n());
        check!(ok(f.get(&t, x), "get")? == s.model[x as usize], "get({x}) after load_tree");
    }
    Ok(())
}
fn main() {
    runner::main(Prop {
        require: &[("elements_compared", 100_000), ("extend", 500), ("extend_unpacked", 500), ("push", 300), ("reload", 100), ("with_big_values", 15), ("continued_far_away", 30)],
        ..Prop::new("C01", "random configuration, random history of extend/push/extend_unpacked/reload/extend from an own tree/pack with values of all CBOR shapes; after random prefixes and at the end all read paths (get, collect, collect_from, iter*, stream*, reverse, chunked, stream_trees) and an independent decoding of the blocks are compared with the list of appended elements; non-trivial: the root has at least two children; distinct: tree shape and leaf limit", case)
    });
}
