use banyan::Config;
use bmon::{query::Q, runner, sess::*, *};
use futures::executor::ThreadPoolBuilder;
use rand::{seq::SliceRandom, Rng};

const STACK: usize = 512 << 10;

/// run on a thread with a small stack; an overflow kills the process, which the runner reports
fn small<X: Send>(f: impl FnOnce() -> Res<X> + Send) -> Res<X> {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || runner::guarded(f))
            .expect("thread")
            .join()
            .unwrap_or_else(|_| Err(Fail("a thread with a small stack panicked".into())))
    })
}
fn build(c: &mut Case) -> Res<Sess> {
    let cfg = Config {
        max_summary_branches: c.rng.gen_range(2..6),
        max_key_branches: c.rng.gen_range(2..6),
        max_leaf_count: c.rng.gen_range(1..5),
        target_leaf_size: 10_000,
        max_uncompressed_leaf_size: 10_000,
        zstd_level: 1,
    };
    let mut s = Sess::with(&mut c.rng, cfg);
    s.gen.max_value = 20;
    s.gen.typ_value = 8;
    s.gen.links = false;
    let appends = match c.index % 8 {
        0 => if c.thorough { 30_000 } else { 12_000 },
        1..=3 => 4000,
        _ => c.rng.gen_range(1..1500),
    };
    let rng = &mut c.rng;
    let few = rng.gen_bool(0.3);
    small(|| {
        for i in 0..appends {
            let n = match rng.gen_range(0..20) {
                0 => 0,
                1 => rng.gen_range(2..8),
                _ => 1,
            };
            let op = match rng.gen_range(0..1000) {
                0 if few && i > 0 => Op::Reload,
                _ => Op::Unpacked(s.gen.els(rng, n)),
            };
            s.must(&op)?;
        }
        s.history = vec![format!("extend_unpacked x {appends}")];
        Ok(s)
    })
}
fn case(c: &mut Case) -> Res {
    let s = build(c)?;
    c.max("level", s.b.level().max(0) as u64);
    c.desc = s.describe();
    c.nontrivial = s.b.level() > 100;
    c.saw((s.b.level(), s.n()));
    c.count("elements", s.n());
    c.count("levels", s.b.level().max(0) as u64);
    let max = s.model.len();
    let t = s.tree();
    if s.can_reload() && c.rng.gen() {
        let f = forest(&s.store, 0);
        let l = s.b.link().unwrap();
        let t: T = ok(f.load_tree(s.secrets.clone(), l), "load_tree")?;
        check!(t.count() == s.n(), "count of the loaded tree");
    }
    let qs: Vec<Q> = {
        let mut v = vec![Q::All];
        let mid = c.rng.gen_range(0..=s.n());
        v.push(Q::range(mid, mid + 3));
        v.push(Q::range(0, c.rng.gen_range(0..4)));
        v.push(Q::gen(&mut c.rng, s.n(), s.gen.bucket, 2));
        v.push(Q::Empty);
        v
    };
    let kinds: Vec<u32> = {
        let mut k: Vec<u32> = (0..13).collect();
        k.shuffle(&mut c.rng);
        if max > 3000 && !c.thorough {
            k.truncate(5)
        }
        k
    };
    for k in kinds {
        let q = if k >= 9 && c.rng.gen() { &qs[0] } else { qs.choose(&mut c.rng).unwrap() };
        let want = expected(&s.model, q);
        let f = forest(&s.store, *[0, 700, 64 << 20].choose(&mut c.rng).unwrap());
        let trees = futures::stream::iter(vec![t.clone()]);
        let (t, s) = (&t, &s);
        let b = q.build();
        let what = format!("read {k} of {q:?} on {} levels", s.b.level());
        let end = max as u64;
        small(move || {
            let flat = |v: Vec<banyan::FilteredChunk<Triple, ()>>, rev: bool| -> Res<Vec<Triple>> {
                let mut v = v;
                if rev {
                    v.reverse();
                }
                let mut at = v.first().map(|c| c.range.start).unwrap_or(0);
                for c in &v {
                    check!(c.range.start == at, "chunk {:?} expected at {at}", c.range);
                    at = c.range.end;
                }
                Ok(v.into_iter().flat_map(|c| c.data).collect())
            };
            let rev = |mut v: Vec<Triple>| {
                v.reverse();
                v
            };
            let m = 4 * max + 4;
            let got = match k {
                0 => drain(f.iter_filtered(t, b), m, &what)?,
                1 => rev(drain(f.iter_filtered_reverse(t, b), m, &what)?),
                2 => drain_stream(f.stream_filtered(t, b), m, &what)?,
                3 => flat(drain(f.iter_filtered_chunked(t, b, &|_| ()), m, &what)?, false)?,
                4 => flat(drain(f.iter_filtered_chunked_reverse(t, b, &|_| ()), m, &what)?, true)?,
                5 => flat(drain_stream(f.stream_filtered_chunked(t, b, &|_| ()), m, &what)?, false)?,
                6 => flat(drain_stream(f.stream_filtered_chunked_reverse(t, b, &|_| ()), m, &what)?, true)?,
                7 => drain_stream(f.stream_trees(b, trees), m, &what)?,
                8 => flat(drain_stream(f.stream_trees_chunked_reverse(b, trees, 0..=end, &|_| ()), m, &what)?, true)?,
                9 => {
                    let pool = ThreadPoolBuilder::new().pool_size(1).stack_size(STACK).create().expect("pool");
                    flat(drain_stream(f.stream_trees_chunked_threaded(b, trees, 0..=end, &|_| (), pool), m, &what)?, false)?
                }
                10 | 11 => {
                    // the index: leaf nodes must cover all elements
                    let it: Vec<_> = if k == 10 { drain(f.iter_index(t, b), m, &what)? } else { drain(f.iter_index_reverse(t, b), m, &what)? };
                    let mut keys: Vec<u64> = vec![];
                    for i in it {
                        if let banyan::index::Index::Leaf(l) = i {
                            keys.extend(l.keys.as_ref().iter().map(|k| k.id));
                        }
                    }
                    keys.sort();
                    for (_, k, _) in &want {
                        check!(keys.binary_search(&k.id).is_ok(), "{what}: the key {} is in no reported leaf", k.id);
                    }
                    want.clone()
                }
                _ => {
                    // only the beginning
                    let v: Vec<_> = f.iter_filtered(t, b).take(3).collect::<anyhow::Result<_>>().map_err(|e| Fail(format!("{what}: {e:#}")))?;
                    let r: Vec<_> = f.iter_filtered_reverse(t, q.build()).take(2).collect::<anyhow::Result<_>>().map_err(|e| Fail(format!("{what}: {e:#}")))?;
                    same_triples(&r, &want.iter().rev().take(2).cloned().collect::<Vec<_>>(), &what)?;
                    same_triples(&v, &want.iter().take(3).cloned().collect::<Vec<_>>(), &what)?;
                    want.clone()
                }
            };
            same_triples(&got, &want, &what)
        })?;
        c.count("reads", 1);
        c.count("deep_reads", (s.b.level() > 2000) as u64);
    }
    Ok(())
}
fn main() {
    runner::main(Prop {
        min_cases: 24,
        require: &[("reads", 150), ("deep_reads", 30)],
        ..Prop::new("C26", "trees of up to 12000 (thorough 30000) unpacked appends are built and then read in 13 ways with random queries, everything on threads with a stack of 512 KiB; results are compared with the appended elements; a stack overflow kills the worker process and is reported; non-trivial: more than 100 levels; distinct: sizes", case)
    });
}
