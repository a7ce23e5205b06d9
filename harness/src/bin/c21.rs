use bmon::{gen, query::Q, runner, sess::*, types::*, *};
use rand::{seq::SliceRandom, Rng, RngCore};

/// root metadata, apart from the size of forgotten index data
fn meta(s: &Sess, exact: bool) -> Option<walk::Meta> {
    let mut m = s.root_meta();
    if let (Some(m), false) = (&mut m, exact) {
        m.key_bytes = 0;
    }
    m
}
fn tree_is(c: &mut Case, s: &mut Sess, f: &F, t: &T, what: &str) -> Res {
    check!(t.count() == s.n(), "{what}: count {} instead of {}", t.count(), s.n());
    check!(t.link() == s.b.link() && t.level() == s.b.level(), "{what}: other root");
    same(&ok(f.collect(t), what)?, &s.model, what)?;
    let q = Q::gen(&mut c.rng, s.n(), s.gen.bucket, 2);
    let want = expected(&s.model, &q);
    let max = s.model.len();
    same_triples(&drain(f.iter_filtered(t, q.build()), max, what)?, &want, &format!("{what} {q:?}"))?;
    let mut got = drain(f.iter_filtered_reverse(t, q.build()), max, what)?;
    got.reverse();
    same_triples(&got, &want, &format!("{what} reverse {q:?}"))?;
    let o = c.rng.gen_range(0..=s.n());
    let got = ok(f.get(t, o), what)?;
    check!(got == s.model.get(o as usize).cloned().flatten(), "{what}: get({o}) is {got:?}");
    let own = s.tree();
    check!(ok(f.is_packed(t), what)? == ok(f.is_packed(&own), what)?, "{what}: is_packed differs");
    Ok(())
}
/// links from which nothing can be loaded
fn errors(c: &mut Case, s: &mut Sess) -> Res {
    let f = forest(&s.store, s.cache);
    let root = s.walk()?.unwrap();
    let mut bad: Vec<(Lnk, banyan::Secrets, &str)> = vec![];
    let mut d = [0; 32];
    c.rng.fill_bytes(&mut d);
    bad.push((Lnk(d), s.secrets.clone(), "a link that does not exist"));
    for l in root.leaves().into_iter().filter_map(|l| l.m.link).take(8) {
        bad.push((l, s.secrets.clone(), "the link of a leaf"));
    }
    let other = gen::secrets(&mut c.rng);
    let link = s.b.link().unwrap();
    bad.push((link, other.clone(), "wrong secrets"));
    bad.push((link, banyan::Secrets::new(*other.index_key(), *s.secrets.value_key()), "a wrong index key"));
    bad.push((link, banyan::Secrets::new(*s.secrets.value_key(), *s.secrets.index_key()), "swapped keys"));
    // everything was read with the right secrets, so that all nodes may be cached
    let warm = forest(&s.store, *[0, 1 << 20, 1 << 20].choose(&mut c.rng).unwrap());
    let t: T = ok(warm.load_tree(s.secrets.clone(), link), "load_tree")?;
    ok(warm.collect(&t), "collect")?;
    let cases = bad.into_iter().flat_map(|b| [(0, b.clone()), (1, b.clone()), (2, b)]);
    for (i, (l, sec, what)) in cases {
        let own: F = (*s.txn).clone();
        let f = [&f, &warm, &own][i];
        if sec.index_key() == s.secrets.index_key() && what.contains("key") {
            continue;
        }
        let r = f.load_tree::<Val>(sec.clone(), l);
        check!(r.is_err(), "load_tree with {what} gives {r:?}");
        let r = f.load_stream_builder::<Val>(sec, s.cfg.clone(), l);
        check!(r.is_err(), "load_stream_builder with {what} gives {r:?}");
        c.count("rejected", 1);
    }
    // the root block goes missing
    s.store.with(|st| st.hidden.insert(link));
    let f2 = forest(&s.store, s.cache);
    check!(f2.load_tree::<Val>(s.secrets.clone(), link).is_err(), "load_tree without the root block");
    check!(f2.load_stream_builder::<Val>(s.secrets.clone(), s.cfg.clone(), link).is_err(), "load_stream_builder without the root block");
    s.store.heal();
    Ok(())
}
/// load from the current root, compare, and continue both
fn reload(c: &mut Case, s: &mut Sess, ops: &mut dyn FnMut(&mut Sess, &mut gen::Rn) -> Op, forgets: &mut bool) -> Res {
    let link = s.b.link().unwrap();
    let f = forest(&s.store, s.cache);
    let mark = s.store.mark();
    let t: T = ok(f.load_tree(s.secrets.clone(), link), "load_tree")?;
    let mut b: Builder = ok(f.load_stream_builder(s.secrets.clone(), s.cfg.clone(), link), "load_stream_builder")?;
    let gets = s.store.gets_since(mark);
    check!(gets.iter().all(|g| *g == link) && gets.len() <= 2, "loading from {} read {gets:?}", link.short());
    check!(s.store.puts_since(mark).is_empty(), "loading wrote blocks");
    tree_is(c, s, &f, &t, "loaded tree")?;
    tree_is(c, s, &f, &b.snapshot(), "snapshot of a loaded builder")?;
    check!(b.count() == s.n(), "loaded builder: count {}", b.count());
    let msgs = ok(f.check_invariants(&b), "check_invariants")?;
    if !*forgets {
        check!(msgs.is_empty(), "loaded builder: {msgs:?}");
    }
    // a second session with its own store, continuing with the loaded builder
    let mut o = Sess { store: s.store.fork(), txn: txn(&s.store, s.cache), b: StreamB::take(&mut b), model: s.model.clone(), cfg: s.cfg.clone(), secrets: s.secrets.clone(), gen: s.gen.clone(), memo: s.memo.clone(), history: vec![], cache: s.cache, scale: s.scale };
    let cache = cache_size(&mut c.rng);
    o.txn = txn(&o.store, cache);
    let exact = !*forgets;
    check!(meta(&o, exact) == meta(s, exact), "metadata of the loaded builder {:?} differ from {:?}", meta(&o, exact), meta(s, exact));
    c.count("reloads", 1);
    let mut both = exact;
    for _ in 0..c.rng.gen_range(1..=5) {
        let op = ops(s, &mut c.rng);
        let (m1, m2) = (s.store.mark(), o.store.mark());
        let (r1, r2) = (s.apply(&op), o.apply(&op));
        check!(r1.is_ok() == r2.is_ok(), "{}: {r1:?} on the original, {r2:?} on the reloaded stream", op.name());
        check!(r1.is_ok(), "{} failed: {:#}", op.name(), r1.unwrap_err());
        let (p1, p2) = (s.store.puts_since(m1), o.store.puts_since(m2));
        // index sizes of trees with forgotten parts are not kept exactly
        if both {
            check!(p1 == p2, "{}: the original wrote {p1:?}, the reloaded stream {p2:?}", op.name());
        } else {
            check!(p1.len() == p2.len(), "{}: the original wrote {} blocks, the reloaded stream {}", op.name(), p1.len(), p2.len());
        }
        if matches!(op, Op::Retain(_)) {
            s.sync_absent()?;
            o.sync_absent()?;
            both &= p1 == p2;
            *forgets = true;
        }
        check!(meta(s, both) == meta(&o, both) || !both, "{}: the roots differ", op.name());
        c.count("continued", 1);
        c.count("same_blocks", if both { p1.len() as u64 } else { 0 });
    }
    same(&o.model, &s.model, "model")?;
    let (a, b) = (s.walk()?, o.walk()?);
    let strip = |n: Option<walk::Node>| n.map(|n| n.nodes().iter().map(|n| (n.m.level, n.m.sealed, n.m.count, n.present(), n.m.value_bytes, n.m.keys.clone(), n.m.sums.clone())).collect::<Vec<_>>());
    let els = b.as_ref().map(|b| b.elements()).unwrap_or_default();
    same(&els, &s.model, "reloaded and continued stream")?;
    check!(strip(a) == strip(b), "the continued trees differ");
    let t = o.tree();
    same(&ok(o.txn.collect(&t), "collect")?, &s.model, "reloaded and continued stream")?;
    c.nontrivial = true;
    Ok(())
}
struct StreamB;
impl StreamB {
    fn take(b: &mut Builder) -> Builder {
        std::mem::replace(b, banyan::StreamBuilder::debug())
    }
}
fn case(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    if c.rng.gen_bool(0.1) {
        // both keys are the same
        let k = *s.secrets.index_key();
        s.secrets = banyan::Secrets::new(k, k);
        s.b = banyan::StreamBuilder::new(s.cfg.clone(), s.secrets.clone());
    }
    let w = *[
        Weights { repair: 0, from: 0, ..Weights::ALL },
        Weights { from: 0, ..Weights::APPEND },
        Weights { from: 0, pack: 2, ..Weights::APPEND },
        Weights { unpacked: 0, reload: 1, from: 0, ..Weights::APPEND },
    ]
    .choose(&mut c.rng)
    .unwrap();
    let wc = Weights { reload: 0, ..w };
    let mut forgets = false;
    for _ in 0..c.rng.gen_range(1..=10) {
        let op = s.op(&mut c.rng, &w);
        let r = s.must(&op);
        c.desc = s.describe();
        r?;
        if let Op::Retain(_) = op {
            forgets = true;
            s.sync_absent()?;
        }
        if s.can_reload() && c.rng.gen_bool(0.4) {
            let r = reload(c, &mut s, &mut |s, r| s.op(r, &wc), &mut forgets);
            c.desc = s.describe();
            r?;
            if s.can_reload() && c.rng.gen_bool(0.3) {
                errors(c, &mut s)?;
            }
        }
    }
    if let Some(n) = s.walk()? {
        c.saw(n.shape());
    }
    Ok(())
}
fn main() {
    runner::main(Prop {
        require: &[("reloads", 2000), ("continued", 5_000), ("same_blocks", 10_000), ("rejected", 2000)],
        ..Prop::new("C21", "random histories; at random positions the tree and the builder are loaded from the root link with an own forest, compared with the original, and both are continued with the same operations on separate stores: the blocks written and the roots must be identical (apart from index byte totals once parts are forgotten); links of leaves, unknown links and wrong keys must be refused; non-trivial: reloaded; distinct: final shapes", case)
    });
}
