use bmon::{live::*, query::Q, runner, sess::*, *};
use futures::{executor::ThreadPool, stream::StreamExt};
use rand::{seq::SliceRandom, Rng};
use std::sync::OnceLock;

fn pool() -> ThreadPool {
    static P: OnceLock<ThreadPool> = OnceLock::new();
    P.get_or_init(|| ThreadPool::builder().pool_size(4).create().expect("pool")).clone()
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Plain,
    Chunked,
    Threaded,
}
fn run(c: &mut Case, s: &Sess, snaps: Vec<Snap>, kind: Kind) -> Res {
    let n = s.n();
    let q = match c.rng.gen_range(0..3) {
        0 => Q::All,
        _ => Q::gen(&mut c.rng, n, s.gen.bucket, 2),
    };
    let (a, b) = match (kind, c.rng.gen_range(0..5)) {
        (Kind::Plain, _) | (_, 0) => (0, u64::MAX),
        (_, 1) => (c.rng.gen_range(0..=n), u64::MAX),
        (_, 2) => {
            let a = c.rng.gen_range(0..=n);
            (a, a)
        }
        _ => {
            let a = c.rng.gen_range(0..=n);
            (a, c.rng.gen_range(a..=n + 2))
        }
    };
    let what = format!("{kind:?} {a}..={b} {q:?} over {} snapshots", snaps.len());
    let f = forest(&s.store, s.cache);
    let src = Source::new(snaps.clone(), s.store.clone());
    let seen = src.seen.clone();
    // (range, data, snapshot) of each chunk; for the plain variant each element is a chunk
    let mut next: Box<dyn FnMut() -> Option<anyhow::Result<(Option<std::ops::Range<u64>>, Vec<Triple>)>>> = match kind {
        Kind::Plain => {
            let mut st = futures::executor::block_on_stream(Box::pin(f.stream_trees(q.build(), src)));
            Box::new(move || st.next().map(|r| r.map(|t| (None, vec![t]))))
        }
        Kind::Chunked => {
            let mut st = futures::executor::block_on_stream(f.stream_trees_chunked(q.build(), src, a..=b, &|_| ()).boxed());
            Box::new(move || st.next().map(|r| r.map(|c| (Some(c.range), c.data))))
        }
        Kind::Threaded => {
            let mut st = futures::executor::block_on_stream(f.stream_trees_chunked_threaded(q.build(), src, a..=b, &|_| (), pool()).boxed());
            Box::new(move || st.next().map(|r| r.map(|c| (Some(c.range), c.data))))
        }
    };
    let mut got: Vec<Triple> = vec![];
    let mut covered = 0u64;
    let mut ended = false;
    let (mut items, mut judged) = (0, 0);
    let total: usize = snaps.iter().map(|s| 4 * s.model.len() + 4).sum();
    let mut start = a;
    // everything that a completely read snapshot contains has been delivered when the next is requested
    let complete = |upto: usize, got: &[Triple], c: &mut Case, judged: &mut usize| -> Res {
        let fired = seen.lock().fired.clone();
        while *judged < upto {
            let i = *judged;
            *judged += 1;
            if fired.get(i).copied() != Some(false) {
                continue;
            }
            let have: std::collections::HashSet<u64> = got.iter().map(|x| x.0).collect();
            for (o, k, _) in expected(&snaps[i].model, &q) {
                check!(
                    o < a || o > b || have.contains(&o),
                    "{what}: snapshot {i} (of {} elements) was read completely, but element {o} (id {}) has not been delivered",
                    snaps[i].model.len(), k.id
                );
            }
            c.count("complete_snapshots", 1);
        }
        Ok(())
    };
    while let Some(r) = next() {
        items += 1;
        check!(items <= total, "{what}: more than {total} items");
        check!(!ended, "{what}: goes on after the end of the range has been delivered");
        let cur = seen.lock().cur.unwrap_or(0);
        if kind != Kind::Threaded {
            complete(cur, &got, c, &mut judged)?;
        }
        let (range, data) = match r {
            Ok(x) => x,
            Err(e) => {
                check!(seen.lock().fired.iter().any(|x| *x) || snaps[cur].fault != Fault::None, "{what}: {e:#}");
                c.count("errors_reported", 1);
                continue;
            }
        };
        let model = &snaps[cur].model;
        if let Some(r) = &range {
            check!(r.start < r.end, "{what}: chunk {r:?}");
            check!(r.end <= model.len() as u64, "{what}: chunk {r:?} of a snapshot with {} elements", model.len());
            let (lo, hi) = (r.start, r.end);
            let want: Vec<Triple> = expected(model, &q).into_iter().filter(|(o, ..)| *o >= lo && *o < hi && *o >= start && *o <= b).collect();
            // nothing from a chunk may be missing, or be there twice
            same_triples(&data, &want, &format!("{what}: chunk {r:?} of snapshot {cur}, {start} elements covered"))?;
            if lo < start && lo < covered {
                // covered before: must be empty up to there
                check!(data.iter().all(|x| x.0 >= covered), "{what}: chunk {r:?} repeats elements below {covered}");
                c.count("overlapping_chunks", 1);
            }
            covered = covered.max(hi);
            start = start.max(hi);
            if kind == Kind::Chunked && hi > b {
                ended = true;
            }
            c.count("chunks", 1);
        }
        for x in &data {
            check!(x.0 >= a && x.0 <= b, "{what}: element {} is outside of the range", x.0);
            if let Some(l) = got.last() {
                check!(x.0 > l.0, "{what}: element {} after element {}", x.0, l.0);
            }
            check!(q.has(x.0, &x.1), "{what}: element {} does not match", x.0);
            check!(
                model.get(x.0 as usize) == Some(&Some((x.1.clone(), x.2.clone()))),
                "{what}: element {} is not what was appended",
                x.0
            );
            got.push(x.clone());
        }
        seen.lock().delivered = got.len();
    }
    drop(next);
    let s2 = seen.lock();
    let (exhausted, cur, fired) = (s2.exhausted, s2.cur, s2.fired.clone());
    drop(s2);
    if exhausted {
        check!(!ended, "{what}: another snapshot was requested after the end of the range");
        complete(snaps.len(), &got, c, &mut judged)?;
        if kind == Kind::Chunked {
            // it should have ended if a completely read snapshot reaches beyond the end
            for (i, s) in snaps.iter().enumerate() {
                check!(
                    fired.get(i).copied().unwrap_or(true) || s.model.len() as u64 <= b || s.model.is_empty(),
                    "{what}: snapshot {i} has {} elements, but the stream did not end with it",
                    s.model.len()
                );
            }
        }
        c.count("exhausted", 1);
    } else {
        check!(kind == Kind::Chunked && (ended || snaps.is_empty()), "{what}: ended with snapshot {cur:?} of {}", snaps.len());
        // everything in the range has been delivered
        let have: std::collections::HashSet<u64> = got.iter().map(|x| x.0).collect();
        for (o, k, _) in expected(&snaps[cur.unwrap_or(0)].model, &q) {
            check!(o < a || o > b || have.contains(&o), "{what}: ended without delivering element {o} (id {})", k.id);
        }
        c.count("ended_by_range", 1);
    }
    s.store.heal();
    c.count("elements", got.len() as u64);
    c.count("faults", fired.iter().filter(|x| **x).count() as u64);
    c.count("snapshots", fired.len() as u64);
    c.count(match kind { Kind::Plain => "plain", Kind::Chunked => "chunked", Kind::Threaded => "threaded" }, 1);
    c.nontrivial |= fired.len() > 1 && !got.is_empty();
    c.saw((fired, got.len(), a, b));
    Ok(())
}
fn case(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    let w = *[Weights { repair: 0, retain: 0, ..Weights::ALL }, Weights { repair: 0, retain: 1, ..Weights::ALL }, Weights::APPEND].choose(&mut c.rng).unwrap();
    let faulty = c.rng.gen_bool(0.6);
    let snaps = snaps(&mut c.rng, &mut s, &w, faulty)?;
    c.desc = s.describe();
    for _ in 0..3 {
        for kind in [Kind::Plain, Kind::Chunked, Kind::Threaded] {
            let snaps = if c.rng.gen_bool(0.3) { snaps.clone() } else {
                // some of them
                let p = c.rng.gen_range(0.3..1.0);
                snaps.iter().filter(|_| c.rng.gen_bool(p)).cloned().collect()
            };
            run(c, &s, snaps, kind)?;
        }
    }
    Ok(())
}
fn main() {
    runner::main(Prop {
        require: &[("elements", 100_000), ("snapshots", 20_000), ("faults", 5000), ("complete_snapshots", 10_000), ("plain", 1000), ("chunked", 1000), ("threaded", 1000), ("ended_by_range", 500), ("chunks", 50_000)],
        ..Prop::new("C16", "scripted sequences of snapshots of a random stream (repeated, empty, packed, reloaded, loaded by others) with pending polls and transient faults (n-th read, all reads, some blocks), streamed by the three forward variants with random queries and ranges; an online checker judges order, uniqueness, range, content of each chunk against the snapshot it came from, completeness when a snapshot that was read without a fault is left, and the end of the stream; non-trivial: more than one snapshot and something delivered; distinct: fault and delivery patterns", case)
    });
}
