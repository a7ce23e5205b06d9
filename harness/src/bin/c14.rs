use bmon::{gen, query::Q, runner, sess::*, store::MonStore, types::*, *};
use rand::{seq::SliceRandom, Rng, RngCore};
use std::collections::HashSet;

#[derive(Clone, Debug, PartialEq)]
enum Read {
    Get(u64),
    Collect(u64),
    Iter(Q),
    IterRev(Q),
    Stream(Q),
    From,
    Chunked(Q),
    ChunkedRev(Q),
    StreamChunked(Q),
    StreamChunkedRev(Q),
    Index(Q),
    IndexRev(Q),
    LoadTree,
    LoadBuilder,
    IsPacked,
    Roots,
    LeftRoots,
    Graph,
    Invariants,
}
#[derive(Clone, PartialEq, Debug)]
enum Item {
    El(Option<(Key, Val)>),
    At(u64, Key, Val),
    Chunk(std::ops::Range<u64>, Vec<Triple>),
    Node(walk::Meta),
    Misc(String),
}
type Out = (Vec<Item>, Option<String>);
/// all items, the error (if any), and nothing may follow the error
fn seq<X>(it: impl Iterator<Item = anyhow::Result<X>>, f: impl Fn(X) -> Item, max: usize) -> Res<Out> {
    let mut out = vec![];
    let mut it = it;
    while let Some(x) = it.next() {
        match x {
            Ok(x) => out.push(f(x)),
            Err(e) => {
                match it.next() {
                    None => {}
                    Some(Ok(_)) => fail!("the iterator goes on after reporting an error"),
                    Some(Err(e)) => fail!("the iterator does not end after an error but reports {e:#}"),
                }
                return Ok((out, Some(format!("{e:#}"))));
            }
        }
        check!(out.len() <= max, "more than {max} items");
    }
    Ok((out, None))
}
fn one<X>(r: anyhow::Result<X>, f: impl FnOnce(X) -> Vec<Item>) -> Res<Out> {
    Ok(match r {
        Ok(x) => (f(x), None),
        Err(e) => (vec![], Some(format!("{e:#}"))),
    })
}
fn run(f: &F, s: &Sess, r: &Read) -> Res<Out> {
    let t = s.tree();
    let max = s.model.len() * 4 + 10;
    let tr = |(o, k, v)| Item::At(o, k, v);
    let ch = |c: banyan::FilteredChunk<Triple, ()>| Item::Chunk(c.range, c.data);
    let ix = |i: banyan::index::Index<TT>| Item::Node(walk::Meta::of(&i));
    match r.clone() {
        Read::Get(o) => one(f.get(&t, o), |x| vec![Item::El(x)]),
        Read::Collect(o) => one(f.collect_from(&t, o), |x| x.into_iter().map(Item::El).collect()),
        Read::Iter(q) => seq(f.iter_filtered(&t, q.build()), tr, max),
        Read::IterRev(q) => seq(f.iter_filtered_reverse(&t, q.build()), tr, max),
        Read::From => seq(f.iter_from(&t), tr, max),
        Read::Stream(q) => {
            let st = f.stream_filtered(&t, q.build());
            futures::pin_mut!(st);
            seq(futures::executor::block_on_stream(st), tr, max)
        }
        Read::Chunked(q) => seq(f.iter_filtered_chunked(&t, q.build(), &|_| ()), ch, max),
        Read::ChunkedRev(q) => seq(f.iter_filtered_chunked_reverse(&t, q.build(), &|_| ()), ch, max),
        Read::StreamChunked(q) => {
            let st = f.stream_filtered_chunked(&t, q.build(), &|_| ());
            futures::pin_mut!(st);
            seq(futures::executor::block_on_stream(st), ch, max)
        }
        Read::StreamChunkedRev(q) => {
            let st = f.stream_filtered_chunked_reverse(&t, q.build(), &|_| ());
            futures::pin_mut!(st);
            seq(futures::executor::block_on_stream(st), ch, max)
        }
        Read::Index(q) => seq(f.iter_index(&t, q.build()), ix, max),
        Read::IndexRev(q) => seq(f.iter_index_reverse(&t, q.build()), ix, max),
        Read::LoadTree => match s.can_reload() {
            false => Ok((vec![], None)),
            true => one(f.load_tree::<Val>(s.secrets.clone(), t.link().unwrap()), |x| {
                vec![Item::Misc(format!("{} {:?} {:?}", x.count(), x.link(), x.level()))]
            }),
        },
        Read::LoadBuilder => match s.can_reload() {
            false => Ok((vec![], None)),
            true => one(f.load_stream_builder::<Val>(s.secrets.clone(), s.cfg.clone(), t.link().unwrap()), |x| {
                vec![Item::Node(walk::Meta::of(x.index().unwrap()))]
            }),
        },
        Read::IsPacked => one(f.is_packed(&t), |x| vec![Item::Misc(format!("{x}"))]),
        Read::Roots => one(f.roots(&s.b), |x| x.iter().map(|i| Item::Node(walk::Meta::of(i))).collect()),
        Read::LeftRoots => one(f.left_roots(&t), |x| x.iter().map(|i| Item::Node(walk::Meta::of(i.index().unwrap()))).collect()),
        Read::Graph => match s.n() {
            0 => Ok((vec![], None)),
            _ => one(f.dump_graph(&t, |(i, n)| format!("{i} {}", matches!(n, banyan::index::NodeInfo::Leaf(..)))), |x| vec![Item::Misc(format!("{x:?}"))]),
        },
        Read::Invariants => one(f.check_invariants(&s.b), |x| x.into_iter().map(Item::Misc).collect()),
    }
}
/// what the read has to deliver (None: only known from the healthy run)
fn want(s: &Sess, r: &Read) -> Option<Vec<Item>> {
    let tr = |q: &Q| expected(&s.model, q).into_iter().map(|(o, k, v)| Item::At(o, k, v)).collect::<Vec<_>>();
    Some(match r {
        Read::Get(o) => vec![Item::El(s.model.get(*o as usize).cloned().flatten())],
        Read::Collect(o) => s.model.iter().skip(*o as usize).cloned().map(Item::El).collect(),
        Read::Iter(q) | Read::Stream(q) => tr(q),
        Read::From => tr(&Q::All),
        Read::IterRev(q) => tr(q).into_iter().rev().collect(),
        _ => return None,
    })
}
fn random_read(c: &mut Case, s: &Sess) -> Read {
    let rng = &mut c.rng;
    let n = s.n();
    let q = if rng.gen_bool(0.25) { Q::All } else { Q::gen(rng, n, s.gen.bucket, 2) };
    match rng.gen_range(0..26) {
        0..=3 => Read::Get(rng.gen_range(0..=n)),
        4 => Read::Collect(rng.gen_range(0..=n)),
        5..=6 => Read::Iter(q),
        7..=8 => Read::IterRev(q),
        9 => Read::Stream(q),
        10 => Read::From,
        11..=12 => Read::Chunked(q),
        13..=14 => Read::ChunkedRev(q),
        15 => Read::StreamChunked(q),
        16 => Read::StreamChunkedRev(q),
        17 => Read::Index(q),
        18 => Read::IndexRev(q),
        19 => Read::LoadTree,
        20 => Read::LoadBuilder,
        21 => Read::IsPacked,
        22 => Read::Roots,
        23 => Read::LeftRoots,
        24 => Read::Graph,
        _ => Read::Invariants,
    }
}
fn judge(got: &Out, want: &[Item], may_fail: bool, what: &str) -> Res {
    for (i, g) in got.0.iter().enumerate() {
        check!(want.get(i) == Some(g), "{what}: item {i} is {g:?} instead of {:?}", want.get(i));
    }
    match &got.1 {
        None => check!(got.0.len() == want.len(), "{what}: ends after {} of {} items without an error", got.0.len(), want.len()),
        Some(e) => check!(may_fail, "{what}: failed though it needs no damaged block: {e}"),
    }
    Ok(())
}
fn damage(c: &mut Case, store: &MonStore, l: Lnk) -> &'static str {
    let raw = store.raw(&l).unwrap();
    let (b, what) = match c.rng.gen_range(0..7) {
        0..=2 => {
            store.with(|st| st.hidden.insert(l));
            return "missing";
        }
        3 => (vec![], "empty"),
        4 => (raw[..c.rng.gen_range(0..raw.len())].to_vec(), "truncated"),
        5 => {
            let mut b = vec![0; c.rng.gen_range(1..60)];
            c.rng.fill_bytes(&mut b);
            (b, "garbage")
        }
        _ => {
            // an intact envelope around garbage
            let env = walk::envelope(&raw).unwrap();
            let mut b = vec![0x83];
            gen::head(0, env.offset, &mut b);
            b.push(0x80);
            let mut blob = vec![0; c.rng.gen_range(16..80)];
            c.rng.fill_bytes(&mut blob);
            gen::bytes(&blob, &mut b);
            (b, "garbled")
        }
    };
    store.with(|st| st.corrupt.insert(l, b));
    what
}
fn case(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    let w = *[Weights { repair: 0, ..Weights::ALL }, Weights::APPEND, Weights { extend: 1, push: 1, from: 0, ..Weights::APPEND }].choose(&mut c.rng).unwrap();
    let n = c.rng.gen_range(1..=10);
    let r = s.run(&mut c.rng, &w, n);
    c.desc = s.describe();
    r?;
    let root = match s.walk()? {
        None => return Ok(()),
        Some(r) => r,
    };
    s.model = root.elements();
    let mut links: Vec<Lnk> = root.links().into_iter().collect();
    links.sort();
    if links.is_empty() {
        return Ok(());
    }
    c.saw(root.shape());
    c.nontrivial = links.len() > 2;
    // the healthy reads, and what they need
    let mut reads: Vec<(Read, Vec<Item>, HashSet<Lnk>)> = vec![];
    for i in 0..if c.thorough { 24 } else { 10 } {
        let r = if i == 0 { Read::From } else { random_read(c, &s) };
        let f = forest(&s.store, s.cache);
        let mark = s.store.mark();
        let (items, err) = run(&f, &s, &r)?;
        check!(err.is_none(), "{r:?} fails on a healthy store: {err:?}");
        if let Some(want) = want(&s, &r) {
            check!(items == want, "{r:?} gives wrong results on a healthy store");
        }
        reads.push((r, items, s.store.gets_since(mark).into_iter().collect()));
    }
    // damage: every single block, some subsets, transient faults
    let mut plans: Vec<Vec<Lnk>> = links.iter().map(|l| vec![*l]).collect();
    plans.shuffle(&mut c.rng);
    plans.truncate(if c.thorough { 60 } else { 20 });
    for _ in 0..6 {
        let p = *[0.05, 0.2, 0.5, 1.0].choose(&mut c.rng).unwrap();
        plans.push(links.iter().filter(|_| c.rng.gen_bool(p)).copied().collect());
    }
    for plan in plans {
        let warm = c.rng.gen_bool(0.3);
        let f = forest(&s.store, s.cache);
        if warm {
            // index blocks may be in the cache already
            let t = s.tree();
            let q = Q::gen(&mut c.rng, s.n(), s.gen.bucket, 1);
            drain(f.iter_filtered(&t, q.build()), s.model.len(), "warming up")?;
        }
        let mut kinds = vec![];
        for l in &plan {
            kinds.push(damage(c, &s.store, *l));
        }
        let bad: HashSet<Lnk> = plan.iter().copied().collect();
        let mut f2 = f.clone();
        for (r, items, need) in &reads {
            if !warm && c.rng.gen_bool(0.7) {
                f2 = forest(&s.store, s.cache);
            }
            let hit = !need.is_disjoint(&bad);
            let what = format!("{r:?} with {:?} {:?}", kinds.first(), plan.first());
            let got = run(&f2, &s, r)?;
            judge(&got, items, hit, &what)?;
            c.count("reads", 1);
            c.count("reads_failed", got.1.is_some() as u64);
            c.count("reads_unaffected", !hit as u64);
        }
        for k in kinds {
            c.count(k, 1);
        }
        s.store.heal();
        // everything is back, also for those that have seen the errors
        for (r, items, _) in &reads {
            if c.rng.gen_bool(0.4) {
                let got = run(&f2, &s, r)?;
                judge(&got, items, false, &format!("{r:?} after the blocks are back"))?;
                c.count("healed", 1);
            }
        }
    }
    // transient faults: the n-th access fails
    for (r, items, _) in &reads {
        for _ in 0..3 {
            let f = forest(&s.store, s.cache);
            let n = c.rng.gen_range(0..6);
            let before = s.store.with(|st| {
                st.get_fault = Some(n);
                st.injected
            });
            let got = run(&f, &s, r)?;
            let fired = s.store.with(|st| {
                st.get_fault = None;
                st.injected > before
            });
            judge(&got, items, fired, &format!("{r:?} with read {n} failing"))?;
            let got = run(&f, &s, r)?;
            judge(&got, items, false, &format!("{r:?} after read {n} failed"))?;
            c.count("transient", fired as u64);
        }
    }
    Ok(())
}
fn main() {
    runner::main(Prop {
        level: "fault_enumeration",
        require: &[("reads", 100_000), ("reads_failed", 40_000), ("reads_unaffected", 20_000), ("healed", 20_000), ("transient", 5_000), ("missing", 5_000), ("truncated", 1000), ("garbage", 1000), ("garbled", 1000), ("empty", 1000)],
        ..Prop::new("C14", "random trees; ten random reads (of 20 kinds) each with every single block damaged in turn (at most 20, thorough 60, sampled beyond that; missing, empty, truncated, garbage, garbage in an intact envelope), with six random sets of damaged blocks and with transient faults, on fresh and on warmed up forests; results are compared with the healthy run and the reference content, then the blocks come back; non-trivial: more than two blocks; distinct: shapes", case)
    });
}
