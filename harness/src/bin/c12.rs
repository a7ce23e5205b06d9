use banyan::{store::{BlockWriter, BranchCache, MemCache, ReadOnlyStore}, Forest, Transaction};
use bmon::{gen, query::Q, runner, sess::*, store::*, types::*, *};
use futures::StreamExt;
use parking_lot::Mutex;
use rand::{seq::SliceRandom, Rng, SeedableRng};
use std::{
    cell::RefCell,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
        Arc,
    },
};

#[derive(Clone)]
struct Snap {
    stream: usize,
    seq: usize,
    tree: T,
    model: Arc<Vec<Option<(Key, Val)>>>,
    max_b: u64,
}
#[derive(Default)]
struct Shared {
    snaps: Mutex<Vec<Snap>>,
    /// number of operations that writers have started and finished
    ops: AtomicU64,
    writing: AtomicU64,
    stop: AtomicBool,
}
thread_local!(static ME: RefCell<Option<(u8, gen::Rn)>> = RefCell::new(None));

fn elements<R>(i: &banyan::index::NodeInfo<TT, R>) -> u64 {
    use banyan::index::NodeInfo::*;
    match i {
        Branch(b, _) => b.count,
        PurgedBranch(b) => b.count,
        Leaf(l, _) => l.keys.as_ref().len() as u64,
        PurgedLeaf(l) => l.keys.as_ref().len() as u64,
    }
}
/// one read of a snapshot through a random read path, compared with its content
fn read<R: ReadOnlyStore<Lnk>>(rng: &mut gen::Rn, f: &Forest<TT, R>, s: &Snap) -> Res<usize> {
    let n = s.model.len() as u64;
    let max = s.model.len();
    let q = if rng.gen_bool(0.3) { Q::All } else { Q::gen(rng, n, s.max_b, 2) };
    let id = format!("snapshot {} of stream {}", s.seq, s.stream);
    check!(s.tree.count() == n, "{id}: count {} instead of {n}", s.tree.count());
    let kind = rng.gen_range(0..11);
    match kind {
        0 => same(&ok(f.collect(&s.tree), &id)?, &s.model, &format!("collect of {id}"))?,
        1 => {
            let o = rng.gen_range(0..=n);
            same(&ok(f.collect_from(&s.tree, o), &id)?, &s.model[o as usize..], &format!("collect_from({o}) of {id}"))?
        }
        2 => {
            for _ in 0..10 {
                let o = rng.gen_range(0..=n);
                let got = ok(f.get(&s.tree, o), &id)?;
                let want = s.model.get(o as usize).cloned().flatten();
                check!(got == want, "{id}: get({o}) is {got:?} instead of {want:?}");
            }
        }
        3 => same_triples(&drain(f.iter_filtered(&s.tree, q.build()), max, &id)?, &expected(&s.model, &q), &format!("iter_filtered {q:?} of {id}"))?,
        4 => {
            let mut got = drain(f.iter_filtered_reverse(&s.tree, q.build()), max, &id)?;
            got.reverse();
            same_triples(&got, &expected(&s.model, &q), &format!("iter_filtered_reverse {q:?} of {id}"))?
        }
        5 => same_triples(&drain_stream(f.stream_filtered(&s.tree, q.build()), max, &id)?, &expected(&s.model, &q), &format!("stream_filtered {q:?} of {id}"))?,
        6 | 7 => {
            let (mut pos, mut got) = (0, vec![]);
            for x in f.iter_filtered_chunked(&s.tree, q.build(), &elements) {
                let x = ok(x, &id)?;
                check!(x.range.start == pos && x.range.end > pos && x.extra == x.range.end - x.range.start, "{id}: chunk {:?} extra {} at {pos}", x.range, x.extra);
                pos = x.range.end;
                got.extend(x.data);
            }
            check!(pos == n, "{id}: chunks end at {pos} instead of {n}");
            same_triples(&got, &expected(&s.model, &q), &format!("iter_filtered_chunked {q:?} of {id}"))?
        }
        8 => {
            let mut pos = n;
            let mut parts = vec![];
            for x in f.iter_filtered_chunked_reverse(&s.tree, q.build(), &|_| ()) {
                let x = ok(x, &id)?;
                check!(x.range.end == pos && x.range.start < pos, "{id}: reverse chunk {:?} at {pos}", x.range);
                pos = x.range.start;
                parts.push(x.data);
            }
            check!(pos == 0, "{id}: reverse chunks end at {pos}");
            parts.reverse();
            same_triples(&parts.concat(), &expected(&s.model, &q), &format!("iter_filtered_chunked_reverse {q:?} of {id}"))?
        }
        9 => {
            let (mut leaves, mut pos) = (0, 0);
            for i in f.iter_index(&s.tree, banyan::query::AllQuery) {
                let i = ok(i, &id)?;
                match &i {
                    banyan::index::Index::Leaf(_) => leaves += i.count(),
                    banyan::index::Index::Branch(b) if b.link.is_none() => leaves += i.count(),
                    _ => {}
                }
                pos += 1;
            }
            check!(leaves == n, "{id}: index iteration shows {leaves} elements in {pos} nodes instead of {n}");
        }
        _ => {
            let c = s.tree.clone();
            check!(c.link() == s.tree.link() && c.level() == s.tree.level(), "{id}: clone differs");
            let r = ok(f.left_roots(&c), &id)?;
            for t in r {
                check!(t.count() <= n, "{id}: left root with {} elements", t.count());
            }
        }
    }
    Ok(kind)
}

/// a thread that reads published snapshots
fn reader<R: ReadOnlyStore<Lnk>>(sh: &Shared, f: &Forest<TT, R>, min: u64) -> Res<[u64; 3]> {
    let mut r = [0u64; 3];
    loop {
        let snap = {
            let v = sh.snaps.lock();
            if v.is_empty() { None } else {
                let mut rng = ME.with(|m| m.borrow().as_ref().unwrap().1.clone());
                let i = if rng.gen() { v.len() - 1 } else { rng.gen_range(0..v.len()) };
                Some(v[i].clone())
            }
        };
        let last = sh.stop.load(SeqCst);
        if let Some(s) = snap {
            let (before, busy) = (sh.ops.load(SeqCst), sh.writing.load(SeqCst));
            let mut rng = ME.with(|m| gen::Rn::from_seed(m.borrow_mut().as_mut().unwrap().1.gen()));
            read(&mut rng, f, &s)?;
            r[0] += 1;
            // something was written while this read was going on
            if sh.ops.load(SeqCst) != before || busy > 0 { r[1] += 1 }
        } else {
            std::thread::yield_now();
        }
        if last && r[0] >= min { break }
    }
    Ok(r)
}
/// a thread that follows a stream of snapshots with the live streaming functions
fn follower<R: ReadOnlyStore<Lnk>>(f: &Forest<TT, R>, threaded: bool, rx: futures::channel::mpsc::UnboundedReceiver<T>, last: u64) -> Res<Vec<Triple>> {
    let q = Q::All;
    let mut got: Vec<Triple> = vec![];
    if last == 0 { return Ok(got) }
    if threaded {
        let pool = futures::executor::ThreadPool::builder().pool_size(2).create().expect("pool");
        let s = f.clone().stream_trees_chunked_threaded(q.build(), rx, 0..=last - 1, &|_| (), pool);
        futures::pin_mut!(s);
        for x in futures::executor::block_on_stream(s) {
            let x = ok(x, "live stream")?;
            got.extend(x.data);
            if x.range.end >= last { break }
        }
    } else {
        let s = f.clone().stream_trees_chunked(q.build(), rx, 0..=last - 1, &|_| ());
        let v: Vec<_> = futures::executor::block_on(s.collect());
        for x in v {
            got.extend(ok(x, "live stream")?.data);
        }
    }
    Ok(got)
}

struct Writer {
    s: Sess,
    /// operations of a live stream, which are known in advance
    ops: Vec<Op>,
    n: usize,
    w: Weights,
    tx: Option<futures::channel::mpsc::UnboundedSender<T>>,
    faults: bool,
}
fn writer<R: ReadOnlyStore<Lnk>, W: BlockWriter<Lnk>>(sh: &Shared, w: &mut Writer, txn: &mut Transaction<TT, R, W>, id: usize) -> Res<[u64; 3]> {
    let mut r = [0; 3];
    let mut seq = 0;
    for i in 0..w.n {
        let mut rng = ME.with(|m| gen::Rn::from_seed(m.borrow_mut().as_mut().unwrap().1.gen()));
        let op = match w.ops.get(i) {
            Some(op) => op.clone(),
            None => w.s.op(&mut rng, &w.w),
        };
        let op = &op;
        w.s.history.push(op.name());
        sh.ops.fetch_add(1, SeqCst);
        sh.writing.fetch_add(1, SeqCst);
        let s = &mut w.s;
        let before = (s.b.link(), s.n());
        let mut failed = false;
        if let Op::Reload = op {
            if s.can_reload() {
                let link = s.b.link().unwrap();
                s.b = ok(txn.load_stream_builder(s.secrets.clone(), s.cfg.clone(), link), "reload")?;
            }
        } else if rng.gen_bool(0.1) {
            // rolled back
            let mut t = s.b.transaction();
            let _ = exec(txn, &mut t, op);
            drop(t);
            check!((s.b.link(), s.b.count()) == before, "stream {id}: {} was rolled back, but the stream changed", op.name());
            failed = true;
            r[1] += 1;
        } else {
            match exec(txn, &mut s.b, op) {
                Ok(true) => s.applied(op),
                Ok(false) => {}
                Err(e) => {
                    check!(w.faults && format!("{e:#}").contains("monstore: injected write failure"), "stream {id}: {} failed: {e:#}", op.name());
                    check!((s.b.link(), s.b.count()) == before, "stream {id}: {} failed and changed the stream", op.name());
                    failed = true;
                    r[2] += 1;
                }
            }
        }
        if matches!(op, Op::Retain(_) | Op::Repair) && !failed {
            s.sync_absent()?;
        }
        check!(s.b.count() == s.n(), "stream {id}: {} elements instead of {} after {}", s.b.count(), s.n(), op.name());
        sh.ops.fetch_add(1, SeqCst);
        sh.writing.fetch_sub(1, SeqCst);
        let snap = Snap { stream: id, seq, tree: s.tree(), model: Arc::new(s.model.clone()), max_b: s.gen.bucket };
        seq += 1;
        if let Some(tx) = &w.tx {
            let _ = tx.unbounded_send(snap.tree.clone());
        }
        sh.snaps.lock().push(snap);
        r[0] += 1;
    }
    w.tx = None;
    Ok(r)
}
fn join<X>(h: std::thread::ScopedJoinHandle<'_, Res<X>>, what: &str) -> Res<X> {
    match h.join() {
        Ok(r) => r,
        Err(_) => fail!("{what} panicked: {:?}", runner::panics().last()),
    }
}
fn concurrent<R: ReadOnlyStore<Lnk>, W: BlockWriter<Lnk>>(c: &mut Case, store: &MonStore, r: R, wr: &(dyn Fn() -> W + Sync)) -> Res {
    let streams = c.rng.gen_range(1..=3);
    let cache = cache_size(&mut c.rng);
    let fresh: Forest<TT, R> = Forest::new(r.clone(), BranchCache::new(1 << 20));
    let f: Forest<TT, R> = Forest::new(r, BranchCache::new(cache));
    let shared_keys = c.rng.gen_bool(0.3);
    let secrets = gen::secrets(&mut c.rng);
    let faults = c.rng.gen_bool(0.3);
    let mut writers = vec![];
    for _ in 0..streams {
        let cfg = gen::config(&mut c.rng);
        let sec = if shared_keys { secrets.clone() } else { gen::secrets(&mut c.rng) };
        let mut s = Sess::with_store(&mut c.rng, cfg, sec, store.clone(), cache);
        s.scale = s.scale.min(60);
        // live streams need content that does not go away
        let live = c.rng.gen_bool(0.4);
        let w = if live { Weights { from: 0, pack: 3, ..Weights::APPEND } } else { Weights::ALL };
        let n = c.rng.gen_range(3..=14);
        let ops: Vec<Op> = if live { (0..n).map(|_| s.op(&mut c.rng, &w)).collect() } else { vec![] };
        writers.push(Writer { s, ops, n, w, tx: None, faults: faults && !live });
    }
    let sh = Shared::default();
    // a delay hook at each store access, which also records the order of the accesses
    let trace: Arc<Mutex<Vec<(u8, bool)>>> = Default::default();
    let style = c.rng.gen_range(0..4u32);
    let fl = faults && writers.iter().all(|w| w.faults);
    let fstore = store.clone();
    {
        let trace = trace.clone();
        store.set_delay(Some(Arc::new(move |put, _| {
            let x = ME.with(|m| {
                let mut m = m.borrow_mut();
                match m.as_mut() {
                    Some((id, rng)) => { let v: u32 = rng.gen(); (*id, v) }
                    None => (200, 0),
                }
            });
            trace.lock().push((x.0, put));
            if fl && put && x.1 % 97 == 5 {
                fstore.with(|st| st.put_fault = Some((0, PutFault::Lost)));
            }
            match style {
                0 => {}
                1 => if x.1 % 4 == 0 { std::thread::yield_now() },
                2 => if x.1 % 16 == 0 { std::thread::sleep(std::time::Duration::from_micros((x.1 >> 8) as u64 % 200)) },
                _ => if put && x.1 % 3 == 0 { std::thread::sleep(std::time::Duration::from_micros((x.1 >> 8) as u64 % 300)) } else if x.1 % 5 == 0 { std::thread::yield_now() },
            }
        })));
    }
    let readers = c.rng.gen_range(1..=4);
    let min = if c.thorough { 12 } else { 5 };
    let seeds: Vec<[u8; 32]> = (0..16).map(|_| c.rng.gen()).collect();
    let start = std::sync::Barrier::new(readers + streams);
    let mut tot = [0u64; 7];
    let mut live: Vec<(usize, u64, bool, Vec<Triple>)> = vec![];
    let r: Res = std::thread::scope(|sc| {
        let (sh, f, start, seeds) = (&sh, &f, &start, &seeds);
        let mut rs = vec![];
        for i in 0..readers {
            rs.push(sc.spawn(move || {
                ME.with(|m| *m.borrow_mut() = Some((i as u8, gen::Rn::from_seed(seeds[i]))));
                start.wait();
                runner::guarded(|| reader(sh, f, min))
            }));
        }
        let mut fs = vec![];
        let mut ws = vec![];
        for (i, w) in writers.iter_mut().enumerate() {
            if !w.ops.is_empty() {
                let (tx, rx) = futures::channel::mpsc::unbounded();
                w.tx = Some(tx);
                let last: u64 = w.ops.iter().map(|o| match o { Op::Extend(e) | Op::Unpacked(e) => e.len() as u64, Op::Push(_) => 1, _ => 0 }).sum();
                let threaded = seeds[i][0] % 2 == 0;
                fs.push((sc.spawn(move || {
                    ME.with(|m| *m.borrow_mut() = Some((100 + i as u8, gen::Rn::from_seed(seeds[12 + i]))));
                    runner::guarded(|| follower(f, threaded, rx, last))
                }), i, last, threaded));
            }
            ws.push(sc.spawn(move || {
                ME.with(|m| *m.borrow_mut() = Some((50 + i as u8, gen::Rn::from_seed(seeds[8 + i]))));
                start.wait();
                runner::guarded(|| {
                    let mut txn = Transaction::new(f.clone(), wr());
                    let r = writer(sh, w, &mut txn, i);
                    w.tx = None;
                    r
                })
            }));
        }
        let mut out: Res = Ok(());
        for w in ws {
            match join(w, "a writer") {
                Ok(n) => (0..3).for_each(|i| tot[i] += n[i]),
                Err(e) => out = out.and(Err(e)),
            }
        }
        sh.stop.store(true, SeqCst);
        for r in rs {
            match join(r, "a reader") {
                Ok(n) => (0..2).for_each(|i| tot[3 + i] += n[i]),
                Err(e) => out = out.and(Err(e)),
            }
        }
        for (h, i, last, threaded) in fs {
            match join(h, "a live stream") {
                Ok(n) => { tot[5] += n.len() as u64; tot[6] += 1; live.push((i, last, threaded, n)) }
                Err(e) => out = out.and(Err(e)),
            }
        }
        out
    });
    store.set_delay(None);
    store.heal();
    c.desc = format!("faults={faults} {}", writers.iter().map(|w| w.s.describe()).collect::<Vec<_>>().join(" | "));
    r?;
    for (i, last, threaded, got) in live {
        same_triples(&got, &expected(&writers[i].s.model, &Q::range(0, last)), if threaded { "threaded live stream" } else { "live stream" })?;
    }
    // everything once more, from the shared forest and from a new one
    let snaps = sh.snaps.lock().clone();
    for s in &snaps {
        for f in [&f, &fresh] {
            read(&mut c.rng, f, s)?;
        }
        same(&ok(fresh.collect(&s.tree), "collect")?, &s.model, &format!("snapshot {} of stream {}", s.seq, s.stream))?;
        c.count("snapshots", 1);
    }
    let tr = trace.lock();
    let switches = tr.windows(2).filter(|w| w[0].0 != w[1].0).count();
    c.count("context_switches_at_store_accesses", switches as u64);
    c.saw(&*tr);
    for (i, n) in ["writes", "rollbacks", "failed_ops", "reads", "reads_overlapping_writes", "live_elements", "live_streams"].iter().enumerate() {
        c.count(n, tot[i]);
    }
    c.nontrivial = switches > 4;
    Ok(())
}
/// later operations on the same thread: old snapshots must not change
fn later(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    s.scale = s.scale.min(60);
    let mut snaps: Vec<Snap> = vec![];
    let f: F = (*s.txn).clone();
    for seq in 0..c.rng.gen_range(2..=10) {
        let op = s.op(&mut c.rng, &Weights::ALL);
        let mut lost = vec![];
        if c.rng.gen_bool(0.15) {
            // blocks are gone for a while, and the stream is repaired meanwhile
            if let Some(n) = s.walk()? {
                let l: Vec<Lnk> = n.links().into_iter().collect();
                lost = l.choose_multiple(&mut c.rng, 2).copied().collect();
                s.store.with(|st| st.hidden.extend(lost.iter().copied()));
            }
            let r = s.txn.repair(&mut s.b);
            s.store.heal();
            ok(r, "repair")?;
            s.sync_absent()?;
            c.count("repairs", 1);
        } else if c.rng.gen_bool(0.15) && !matches!(op, Op::Reload) {
            let mut t = s.b.transaction();
            let _ = exec(&mut s.txn, &mut t, &op);
            drop(t);
            c.count("rollbacks", 1);
        } else {
            match s.apply(&op) {
                // a part that is not packed was lost
                Err(e) if matches!(op, Op::Pack) && e.to_string() == "found purged data" => {}
                Err(e) => fail!("{} failed: {e:#}", op.name()),
                Ok(()) => {}
            }
            if matches!(op, Op::Retain(_) | Op::Repair) { s.sync_absent()?; }
        }
        c.desc = s.describe();
        let _ = lost;
        snaps.push(Snap { stream: 0, seq, tree: s.tree(), model: Arc::new(s.model.clone()), max_b: s.gen.bucket });
        let old = snaps.choose(&mut c.rng).unwrap().clone();
        read(&mut c.rng, &f, &old)?;
        c.count("later_reads", 1);
    }
    let fresh = forest(&s.store, 1 << 20);
    for s in &snaps {
        same(&ok(f.collect(&s.tree), "collect")?, &s.model, &format!("snapshot {}", s.seq))?;
        same(&ok(fresh.collect(&s.tree), "collect")?, &s.model, &format!("snapshot {}", s.seq))?;
        read(&mut c.rng, &f, s)?;
        c.count("later_reads", 3);
    }
    c.nontrivial = snaps.len() > 3;
    Ok(())
}
/// a store that takes no lock that another thread takes, so that nothing but the code under
/// test orders the threads (the monitored store would hide races from ThreadSanitizer)
#[derive(Clone)]
struct Local {
    base: Arc<std::collections::HashMap<Lnk, Arc<[u8]>>>,
    own: Arc<Mutex<std::collections::HashMap<Lnk, Arc<[u8]>>>>,
}
impl ReadOnlyStore<Lnk> for Local {
    fn get(&self, l: &Lnk) -> anyhow::Result<Box<[u8]>> {
        match self.base.get(l) {
            Some(b) => Ok(b.to_vec().into()),
            None => self.own.lock().get(l).map(|b| b.to_vec().into()).ok_or_else(|| anyhow::anyhow!("no block {l}")),
        }
    }
}
impl BlockWriter<Lnk> for Local {
    fn put(&mut self, data: Vec<u8>) -> anyhow::Result<Lnk> {
        let l = Lnk::digest(&data);
        self.own.lock().insert(l, data.into());
        Ok(l)
    }
}
/// readers and writers that share trees, branch cache and block cache, and otherwise nothing
fn race(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    s.scale = s.scale.min(60);
    let mut snaps: Vec<Snap> = vec![];
    for seq in 0..c.rng.gen_range(2..=6) {
        let op = s.op(&mut c.rng, &Weights::ALL);
        s.apply(&op).map_err(|e| Fail(format!("{} failed: {e:#}", op.name())))?;
        if matches!(op, Op::Retain(_) | Op::Repair) { s.sync_absent()?; }
        snaps.push(Snap { stream: 0, seq, tree: s.tree(), model: Arc::new(s.model.clone()), max_b: s.gen.bucket });
    }
    c.desc = s.describe();
    let base = Arc::new(s.store.with(|st| st.blocks.clone()));
    let cache = BranchCache::new(cache_size(&mut c.rng));
    let block_cache = c.rng.gen_bool(0.5);
    // MemCache over a store of all threads, for the caches that are shared
    let mem = MemCache::new(Local { base: base.clone(), own: Default::default() }, *[64usize, 1 << 20].choose(&mut c.rng).unwrap(), *[5000usize, 1 << 20].choose(&mut c.rng).unwrap());
    let n = c.rng.gen_range(2..=6usize);
    let seeds: Vec<[u8; 32]> = (0..n).map(|_| c.rng.gen()).collect();
    let base_seed = gen::secrets(&mut c.rng);
    let link = s.b.link();
    let (cfg, secrets, model) = (s.cfg.clone(), s.secrets.clone(), s.model.clone());
    let tot: Vec<Res<[u64; 2]>> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds.iter().enumerate().map(|(i, seed)| {
            let (snaps, base, cache, mem) = (&snaps, &base, &cache, &mem);
            let (cfg, secrets, base_seed, model) = (&cfg, &secrets, &base_seed, &model);
            sc.spawn(move || runner::guarded(|| {
                let mut rng = gen::Rn::from_seed(*seed);
                let mut r = [0u64; 2];
                let local = Local { base: base.clone(), own: Default::default() };
                let f: Forest<TT, Local> = Forest::new(local.clone(), cache.clone());
                let fm: Forest<TT, MemCache<Lnk, Local>> = Forest::new(mem.clone(), cache.clone());
                let mut txn = Transaction::new(f.clone(), local);
                // an own stream, and one that continues the common one
                let mut own = Sess::with_store(&mut rng, cfg.clone(), base_seed.clone(), MonStore::new(), 0);
                own.scale = 20;
                if let (Some(l), true) = (link, i % 3 == 0) {
                    let mut b = ok(txn.load_stream_builder::<Val>(secrets.clone(), cfg.clone(), l), "load")?;
                    ok(txn.extend_unpacked(&mut b, own.gen.els(&mut rng, 3).into_iter().map(|e| (e.k, e.v))), "extend_unpacked")?;
                    check!(b.count() >= model.len() as u64, "count of a continued stream");
                }
                for _ in 0..8 {
                    let snap = &snaps[rng.gen_range(0..snaps.len())];
                    if block_cache { read(&mut rng, &fm, snap)?; } else { read(&mut rng, &f, snap)?; }
                    r[0] += 1;
                    if rng.gen_bool(0.3) {
                        let op = own.op(&mut rng, &Weights::APPEND);
                        if !matches!(op, Op::Reload) && ok(exec(&mut txn, &mut own.b, &op), &op.name())? { own.applied(&op) }
                        let snap = Snap { stream: i + 1, seq: 0, tree: own.tree(), model: Arc::new(own.model.clone()), max_b: own.gen.bucket };
                        read(&mut rng, &f, &snap)?;
                        r[1] += 1;
                    }
                }
                Ok(r)
            }))
        }).collect();
        hs.into_iter().map(|h| join(h, "a thread")).collect()
    });
    for t in tot {
        let t = t?;
        c.count("race_reads", t[0]);
        c.count("race_writes", t[1]);
    }
    c.count("race_threads", n as u64);
    c.nontrivial = true;
    c.saw((n, block_cache, snaps.len(), model.len()));
    Ok(())
}
/// threads that read leaves of more than 4 MiB at the same time
fn big(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    s.cfg.max_uncompressed_leaf_size = 16 << 20;
    s.cfg.target_leaf_size = 1 << 20;
    s.cfg.zstd_level = 1;
    s.b = banyan::StreamBuilder::new(s.cfg.clone(), s.secrets.clone());
    s.gen.max_value = 15 << 20;
    let mut snaps: Vec<Snap> = vec![];
    let (n, min, max) = if std::env::var("BMON_PHASE").is_ok() { (2, 4300 << 10, 5 << 20) } else { (c.rng.gen_range(2..=5), 1 << 20, 8 << 20) };
    for i in 0..n {
        let mut v = vec![];
        gen::bytes(&vec![i as u8 + 1; c.rng.gen_range(min..max)], &mut v);
        let mut els = vec![El { k: s.gen.key(&mut c.rng), v: Val(v) }];
        let small = c.rng.gen_range(0..3);
        els.extend(s.gen.els(&mut c.rng, small).into_iter().filter(|e| e.v.0.len() < 1000));
        let by = small.min(els.len() - 1);
        els.rotate_left(by);
        let op = if c.rng.gen() { Op::Extend(els) } else { Op::Unpacked(els) };
        s.must(&op)?;
        snaps.push(Snap { stream: 0, seq: i as usize, tree: s.tree(), model: Arc::new(s.model.clone()), max_b: s.gen.bucket });
    }
    c.desc = format!("large leaves: {}", s.describe());
    let base = Arc::new(s.store.with(|st| st.blocks.clone()));
    let threads = c.rng.gen_range(2..=4);
    let seeds: Vec<[u8; 32]> = (0..threads).map(|_| c.rng.gen()).collect();
    let start = std::sync::Barrier::new(threads);
    let f: Forest<TT, Local> = Forest::new(Local { base, own: Default::default() }, BranchCache::new(1 << 20));
    let r: Vec<Res> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds.iter().map(|seed| {
            let (snaps, start, f) = (&snaps, &start, &f);
            sc.spawn(move || {
                start.wait();
                runner::guarded(|| {
                    let mut rng = gen::Rn::from_seed(*seed);
                    let s = snaps.last().unwrap();
                    for _ in 0..4 {
                        let o = rng.gen_range(0..s.model.len());
                        let got = ok(f.get(&s.tree, o as u64), "get")?;
                        check!(got == s.model[o], "get({o}) of a large leaf gives {:?} bytes", got.map(|x| x.1.0.len()));
                    }
                    read(&mut rng, f, s).map(|_| ())
                })
            })
        }).collect();
        hs.into_iter().map(|h| join(h, "a thread")).collect()
    });
    for r in r {
        r?;
        c.count("large_leaf_reads", 5);
    }
    c.nontrivial = true;
    c.saw(s.model.len());
    Ok(())
}
fn case(c: &mut Case) -> Res {
    if c.index % 64 == 3 {
        return big(c);
    }
    if std::env::var("BMON_PHASE").is_ok() && c.index % 16 != 0 || c.rng.gen_bool(0.1) {
        return race(c);
    }
    if c.rng.gen_bool(0.35) {
        return later(c);
    }
    let store = MonStore::new();
    if c.rng.gen_bool(0.4) {
        let size = *[64usize, 300, 1 << 20].choose(&mut c.rng).unwrap();
        let cap = *[500usize, 5000, 1 << 20].choose(&mut c.rng).unwrap();
        let m = MemCache::new(store.clone(), size, cap);
        let m2 = m.clone();
        concurrent(c, &store, m, &move || m2.write(|s| Ok(s.clone())).unwrap())
    } else {
        let s2 = store.clone();
        concurrent(c, &store, store.clone(), &move || s2.clone())
    }
}
fn main() {
    runner::main(Prop {
        require: &[("writes", 3000), ("reads", 5000), ("reads_overlapping_writes", 1500), ("snapshots", 3000), ("context_switches_at_store_accesses", 20_000), ("live_streams", 100), ("later_reads", 5000), ("rollbacks", 100), ("failed_ops", 20), ("race_reads", 500), ("large_leaf_reads", 200)],
        ..Prop::new("C12", "1-3 streams, each with a writer thread doing random operations (failing and rolled back ones included), 1-4 reader threads that verify random published snapshots through random read paths, and live streams following the writers (plain and thread pool), all over one forest, branch cache and store (in part behind a MemCache), with yields and sleeps injected at the store accesses; afterwards every snapshot is verified again through the shared and a new forest; in the other cases snapshots are re-read after later operations, rollbacks and repairs with lost blocks on the same thread; deadlocks and panics are detected by the runner; non-trivial: more than 4 context switches (or 3 snapshots); distinct: sequences of (thread, access kind) at the store", case)
    });
}
