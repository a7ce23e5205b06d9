use bmon::{gen, runner, sess::*, store::*, types::*, walk::Meta, *};
use rand::{seq::SliceRandom, Rng};

type Look = Vec<(u32, bool, u64, u64, bool, u64, Vec<Key>, Vec<Sum>)>;
type Els = Vec<Option<(Key, Val)>>;
/// what a user can tell apart about a tree: structure, metadata, elements
fn look(s: &mut Sess) -> Res<(Look, Els)> {
    Ok(match s.walk()? {
        None => (vec![], vec![]),
        Some(w) => {
            for n in w.nodes() {
                check!(
                    !matches!(n.state, walk::State::Missing),
                    "the block {:?} of the tree is not in the store",
                    n.m.link
                );
            }
            (
                w.nodes()
                    .iter()
                    .map(|n| {
                        (n.m.level, n.m.sealed, n.m.count, n.start, n.present(), n.m.value_bytes, n.m.keys.clone(), n.m.sums.clone())
                    })
                    .collect(),
                w.elements(),
            )
        }
    })
}
fn fresh(s: &mut Sess) {
    s.txn = txn(&s.store, s.cache);
}
/// the handle still shows the old tree
fn untouched(s: &mut Sess, before: &Option<Meta>, els: &Els, what: &str, deep: bool) -> Res {
    check!(&s.root_meta() == before, "{what}: the root has changed to {:?}", s.root_meta());
    check!(s.b.count() == els.len() as u64, "{what}: count is {}", s.b.count());
    check!(
        s.b.snapshot().link() == before.as_ref().and_then(|x| x.link),
        "{what}: the snapshot has another root"
    );
    if deep {
        let (_, now) = look(s)?;
        same(&now, els, what)?;
        let t = s.tree();
        if s.store.with(|st| st.hidden.is_empty()) {
            same(&ok(s.txn.collect(&t), what)?, els, what)?;
        }
    }
    Ok(())
}
/// run `op` with a fault at every position where it reads or writes
fn faults(c: &mut Case, s: &mut Sess, op: &Op) -> Res {
    let hidden = s.store.with(|st| st.hidden.clone());
    let before = s.root_meta();
    let (_, els) = look(s)?;
    // the normal result, in a transaction that is dropped
    if c.rng.gen() {
        fresh(s)
    }
    let (p0, g0) = (s.store.0.puts.load(std::sync::atomic::Ordering::SeqCst), s.store.0.gets.load(std::sync::atomic::Ordering::SeqCst));
    let mut t = s.b.transaction();
    let r = exec(&mut s.txn, &mut t, op);
    let (p1, g1) = (s.store.0.puts.load(std::sync::atomic::Ordering::SeqCst), s.store.0.gets.load(std::sync::atomic::Ordering::SeqCst));
    let root = t.index().map(Meta::of);
    drop(t);
    untouched(s, &before, &els, &format!("{} in a dropped transaction", op.name()), true)?;
    c.count("rolled_back", 1);
    let want = match &r {
        Err(_) => None,
        Ok(_) => {
            let mut memo = s.memo.clone();
            Some(match &root {
                None => (vec![], vec![]),
                Some(m) => {
                    let w = walk::walk(&s.store, m, &s.secrets, &mut memo)?;
                    let l: Look = w.nodes().iter().map(|n| (n.m.level, n.m.sealed, n.m.count, n.start, n.present(), n.m.value_bytes, n.m.keys.clone(), n.m.sums.clone())).collect();
                    (l, w.elements())
                }
            })
        }
    };
    let mut plan: Vec<(bool, u64, u8)> = vec![];
    for n in 0..p1 - p0 {
        plan.push((true, n, 0));
        plan.push((true, n, 1));
    }
    if !matches!(op, Op::Repair) {
        for n in 0..g1 - g0 {
            plan.push((false, n, 0));
        }
        if p1 + g1 > p0 + g0 {
            plan.push((false, 0, 2)); // everything fails
        }
    }
    c.max("fault_positions", plan.len() as u64);
    let max = if c.thorough { 60 } else { 24 };
    if plan.len() > max {
        plan.shuffle(&mut c.rng);
        plan.truncate(max);
    }
    for (put, n, how) in plan {
        fresh(s);
        let injected = s.store.with(|st| {
            match (put, how) {
                (_, 2) => st.down = true,
                (true, 0) => st.put_fault = Some((n, PutFault::Lost)),
                (true, _) => st.put_fault = Some((n, PutFault::StoredButError)),
                (false, _) => st.get_fault = Some(n),
            }
            st.injected
        });
        let what = format!(
            "{} with {}",
            op.name(),
            match (put, how) {
                (_, 2) => "an unavailable store".to_string(),
                (true, 0) => format!("failing write {n}"),
                (true, _) => format!("write {n} reporting an error but stored"),
                (false, _) => format!("failing read {n}"),
            }
        );
        let r = exec(&mut s.txn, &mut s.b, op);
        let fired = s.store.with(|st| st.injected) > injected;
        s.store.heal();
        s.store.with(|st| st.hidden = hidden.clone());
        c.count("faults", fired as u64);
        match r {
            Err(_) => {
                c.count("failed_operations", 1);
                let deep = c.rng.gen_bool(0.4);
                untouched(s, &before, &els, &what, deep)?;
            }
            Ok(_) => {
                // the result must be the normal one; continue from there
                c.count("succeeded_in_spite_of_a_fault", fired as u64);
                let now = look(s)?;
                check!(Some(&now) == want.as_ref(), "{what} succeeded with another result than without the fault");
                adopt(s, now.1);
                return Ok(());
            }
        }
    }
    // and now without a fault
    if c.rng.gen() {
        fresh(s)
    }
    match (exec(&mut s.txn, &mut s.b, op), want) {
        (Ok(_), Some(want)) => {
            let now = look(s)?;
            same(&now.1, &want.1, &format!("{} after failures", op.name()))?;
            check!(now.0 == want.0, "{} after failures gives another tree than before", op.name());
            adopt(s, now.1);
        }
        (Err(_), None) => {
            c.count("refused", 1);
            untouched(s, &before, &els, &format!("refused {}", op.name()), true)?
        }
        (Err(e), Some(_)) => fail!("{} failed after earlier failures: {e:#}", op.name()),
        (Ok(_), None) => fail!("{} succeeded after earlier failures, but failed at first: {:#}", op.name(), r.unwrap_err()),
    }
    s.store.with(|st| st.hidden.clear());
    s.history.push(op.name());
    Ok(())
}
fn adopt(s: &mut Sess, els: Els) {
    s.model = els;
    s.store.with(|st| st.hidden.clear());
}
/// expected elements after an append
fn appends(model: &Els, op: &Op) -> Option<Els> {
    let more = match op {
        Op::Extend(e) | Op::Unpacked(e) | Op::ExtendFrom(_, e) => e.clone(),
        Op::Push(e) => vec![e.clone()],
        Op::Pack => vec![],
        _ => return None,
    };
    Some(model.iter().cloned().chain(more.into_iter().map(|e| Some((e.k, e.v)))).collect())
}
/// (nested) transactions with several operations, committed or dropped in various ways
fn transactions(c: &mut Case, s: &mut Sess) -> Res {
    let before = s.root_meta();
    let (_, els) = look(s)?;
    let w = Weights { repair: 0, reload: 0, retain: 0, from: 0, ..Weights::ALL };
    let ops: Vec<Op> = (0..c.rng.gen_range(1..5)).map(|_| s.op(&mut c.rng, &w)).collect();
    let inner: Vec<Op> = (0..c.rng.gen_range(0..4)).map(|_| s.op(&mut c.rng, &w)).collect();
    let mut model = els.clone();
    let (commit, commit_inner) = (c.rng.gen_bool(0.5), c.rng.gen_bool(0.5));
    let panics = !commit && c.rng.gen_bool(0.3);
    let fault = c.rng.gen_bool(0.3);
    s.history.push(format!("txn[{} ops, inner {} {}, {}]", ops.len(), inner.len(), commit_inner, if commit { "commit" } else { "drop" }));
    let mut inner_meta = None;
    let mut err = None;
    {
        let mut t = s.b.transaction();
        for op in &ops {
            let was = t.index().map(Meta::of);
            if fault {
                let n = c.rng.gen_range(0..4);
                s.store.with(|st| if c.rng.gen() { st.put_fault = Some((n, PutFault::Lost)) } else { st.get_fault = Some(n) });
            }
            match exec(&mut s.txn, &mut t, op) {
                Ok(_) => model = appends(&model, op).unwrap(),
                Err(e) if fault => {
                    c.count("faults", 1);
                    check!(t.index().map(Meta::of) == was, "{} failing inside of a transaction has changed the stream ({e:#})", op.name());
                }
                Err(e) => err = Some(format!("{}: {e:#}", op.name())),
            }
            s.store.heal();
        }
        if err.is_none() && !inner.is_empty() {
            let was = t.index().map(Meta::of);
            let mut m2 = model.clone();
            let mut u = t.transaction();
            for op in &inner {
                match exec(&mut s.txn, &mut u, op) {
                    Ok(_) => m2 = appends(&m2, op).unwrap(),
                    Err(e) => err = Some(format!("{}: {e:#}", op.name())),
                }
            }
            let now = u.index().map(Meta::of);
            if commit_inner {
                u.commit();
                model = m2;
                check!(t.index().map(Meta::of) == now, "committing an inner transaction has changed the stream");
            } else {
                drop(u);
                check!(t.index().map(Meta::of) == was, "dropping an inner transaction did not restore the stream");
            }
            c.count("inner_transactions", 1);
        }
        inner_meta = t.index().map(Meta::of).or(inner_meta);
        if commit {
            t.commit();
        } else if panics {
            let txn = &mut s.txn;
            let k = s.gen.key(&mut c.rng);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let mut t = t;
                let mut n = 0;
                let it = std::iter::from_fn(|| {
                    n += 1;
                    if n > 5 {
                        std::panic::panic_any("panic of the caller")
                    }
                    Some((k.clone(), Val(vec![n])))
                });
                let _ = txn.extend(&mut t, it);
                t.commit();
            }));
            check!(r.is_err(), "a panic of the source of an extend is swallowed");
            fresh(s);
            c.count("panics", 1);
        } else {
            drop(t);
        }
    }
    if let Some(e) = err {
        // pack may be refused, nothing else
        check!(e.starts_with("pack"), "operation inside of a transaction failed: {e}");
    }
    if commit {
        c.count("committed", 1);
        check!(s.root_meta() == inner_meta, "committing a transaction has changed the stream");
        let (_, now) = look(s)?;
        same(&now, &model, "committed transaction")?;
        let t = s.tree();
        same(&ok(s.txn.collect(&t), "collect")?, &model, "committed transaction")?;
        s.model = model;
    } else {
        c.count("rolled_back", 1);
        untouched(s, &before, &els, "dropped transaction", true)?;
    }
    Ok(())
}
/// an item that can not be encoded within the limits, somewhere in an append
fn unencodable(c: &mut Case, s: &mut Sess) -> Res {
    let max = s.cfg.max_uncompressed_leaf_size;
    if max > 60_000 {
        return Ok(());
    }
    let before = s.root_meta();
    let (_, els) = look(s)?;
    let n = c.rng.gen_range(0..20);
    let mut items = s.gen.els(&mut c.rng, n);
    let k = s.gen.key(&mut c.rng);
    let mut v = vec![];
    gen::bytes(&vec![1; max + c.rng.gen_range(0..3)], &mut v);
    let at = c.rng.gen_range(0..=items.len());
    items.insert(at, El { k, v: Val(v) });
    let op = match c.rng.gen_range(0..3) {
        0 => Op::Push(items[at].clone()),
        1 => Op::Extend(items),
        _ => Op::Unpacked(items),
    };
    check!(exec(&mut s.txn, &mut s.b, &op).is_err(), "{}: an item beyond the limit was accepted", op.name());
    untouched(s, &before, &els, &format!("{} with an item beyond the limit", op.name()), true)?;
    c.count("unencodable", 1);
    Ok(())
}
fn case(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    let w = *[Weights::ALL, Weights::NO_RETAIN, Weights::APPEND].choose(&mut c.rng).unwrap();
    let n = c.rng.gen_range(0..8);
    s.run(&mut c.rng, &w, n)?;
    s.model = look(&mut s)?.1;
    let mut run = || -> Res {
        for _ in 0..c.rng.gen_range(1..5) {
            match c.rng.gen_range(0..10) {
                0..=1 => transactions(c, &mut s)?,
                2 => unencodable(c, &mut s)?,
                _ => {
                    let w = Weights { reload: 0, from: 0, pack: 5, retain: 4, repair: 3, ..Weights::ALL };
                    let op = s.op(&mut c.rng, &w);
                    if let Op::Repair = op {
                        // lose some blocks below the root
                        if let Some(root) = s.walk()? {
                            let links: Vec<Lnk> = root.nodes().iter().skip(1).filter_map(|n| n.m.link).collect();
                            let k = c.rng.gen_range(0..4);
                            s.store.with(|st| st.hidden.extend(links.choose_multiple(&mut c.rng, k).copied()));
                        }
                    }
                    let expect = appends(&s.model, &op);
                    let refused = c.counters.get("refused").copied();
                    faults(c, &mut s, &op)?;
                    c.count(op.kind(), 1);
                    if let (Some(e), true) = (expect, refused == c.counters.get("refused").copied()) {
                        same(&s.model, &e, &format!("{} after failures", op.name()))?;
                    }
                    let t = s.tree();
                    same(&ok(s.txn.collect(&t), "collect")?, &s.model, "after failures")?;
                }
            }
        }
        Ok(())
    };
    let r = run();
    c.desc = s.describe();
    if let Some(w) = s.walk()? {
        c.saw(w.shape());
    }
    c.nontrivial = c.counters.get("faults").copied().unwrap_or(0) > 2;
    r
}
fn main() {
    runner::main(Prop {
        level: "fault_enumeration",
        require: &[("faults", 20_000), ("failed_operations", 15_000), ("rolled_back", 1000), ("committed", 300), ("inner_transactions", 200), ("panics", 50), ("unencodable", 200), ("extend", 300), ("extend_unpacked", 300), ("pack", 200), ("retain", 200), ("repair", 100)],
        ..Prop::new("C11", "random base trees; for a random operation every read and every write (at most 24 per operation, sampled beyond that; 60 thorough) is made to fail in turn, writes both with and without the block reaching the store, after which root, elements and store are compared with those before; finally the operation is repeated without a fault and compared with the result of a fault-free run in a dropped transaction; also unencodable items, nested transactions, panicking callers; non-trivial: more than two faults fired; distinct: resulting shapes", case)
    });
}
