use bmon::{live::*, query::Q, runner, sess::*, *};
use futures::stream::StreamExt;
use rand::{seq::SliceRandom, Rng};

fn run(c: &mut Case, s: &Sess, snaps: Vec<Snap>) -> Res {
    let n = s.n();
    let q = match c.rng.gen_range(0..3) {
        0 => Q::All,
        _ => Q::gen(&mut c.rng, n, s.gen.bucket, 2),
    };
    let (a, b) = match c.rng.gen_range(0..6) {
        0 => (0, u64::MAX),
        1 => (c.rng.gen_range(0..=n), u64::MAX),
        2 => {
            let a = c.rng.gen_range(0..=n);
            (a, a)
        }
        3 => (0, c.rng.gen_range(0..=n + 1)),
        _ => {
            let a = c.rng.gen_range(0..=n);
            (a, c.rng.gen_range(a..=n + 2))
        }
    };
    let what = format!("reverse {a}..={b} {q:?} over {} snapshots", snaps.len());
    let f = forest(&s.store, s.cache);
    let src = Source::new(snaps.clone(), s.store.clone());
    let seen = src.seen.clone();
    let mut st = futures::executor::block_on_stream(f.stream_trees_chunked_reverse(q.build(), src, a..=b, &|_| ()).boxed());
    // elements that must be delivered: those in the first snapshot
    let top = snaps.iter().find(|s| !s.model.is_empty()).map(|s| s.model.len() as u64).unwrap_or(0);
    let mut got: Vec<Triple> = vec![];
    let mut below: Option<u64> = None; // everything from here on has been delivered
    let mut ended = false;
    let mut items = 0;
    let total: usize = snaps.iter().map(|s| 4 * s.model.len() + 4).sum();
    let missing = |i: usize, got: &[Triple], why: &str| -> Res {
        let have: std::collections::HashSet<u64> = got.iter().map(|x| x.0).collect();
        for (o, k, _) in expected(&snaps[i].model, &q) {
            check!(o < a || o > b || o >= top || have.contains(&o), "{what}: {why} {i}, but element {o} (id {}) has not been delivered", k.id);
        }
        Ok(())
    };
    while let Some(r) = st.next() {
        items += 1;
        check!(items <= total, "{what}: more than {total} items");
        check!(!ended, "{what}: goes on after the start of the range has been delivered");
        let (cur, fired) = {
            let s = seen.lock();
            (s.cur.unwrap_or(0), s.fired.clone())
        };
        let ch = match r {
            Ok(x) => x,
            Err(e) => {
                check!(fired.iter().any(|x| *x) || snaps[cur].fault != Fault::None, "{what}: {e:#}");
                c.count("errors_reported", 1);
                continue;
            }
        };
        let model = &snaps[cur].model;
        let r = ch.range.clone();
        check!(r.start < r.end && r.end <= model.len() as u64, "{what}: chunk {r:?} of a snapshot with {} elements", model.len());
        let lim = below.unwrap_or(u64::MAX);
        let want: Vec<Triple> = expected(model, &q).into_iter().filter(|(o, ..)| *o >= r.start && *o < r.end && *o >= a && *o <= b && *o < lim).collect();
        same_triples(&ch.data, &want, &format!("{what}: chunk {r:?} of snapshot {cur}, delivered from {below:?} on"))?;
        for x in &ch.data {
            check!(x.0 >= a && x.0 <= b, "{what}: element {} is outside of the range", x.0);
            check!(q.has(x.0, &x.1), "{what}: element {} does not match", x.0);
        }
        if let (Some(x), Some(y)) = (ch.data.last(), got.first()) {
            check!(x.0 < y.0, "{what}: chunk with element {} after a chunk with element {}", x.0, y.0);
        }
        let mut d = ch.data;
        d.append(&mut got);
        got = d;
        below = Some(lim.min(r.start));
        if r.start <= a {
            ended = true;
        }
        c.count("chunks", 1);
    }
    drop(st);
    let (exhausted, cur, fired) = {
        let s = seen.lock();
        (s.exhausted, s.cur, s.fired.clone())
    };
    s.store.heal();
    if exhausted {
        check!(!ended, "{what}: another snapshot was requested after the start of the range");
        for (i, s) in snaps.iter().enumerate() {
            check!(
                s.model.is_empty() || fired.get(i).copied().unwrap_or(true),
                "{what}: snapshot {i} was read completely, but the stream did not end with it"
            );
        }
        c.count("exhausted", 1);
    } else {
        check!(ended || snaps.is_empty(), "{what}: ended early with snapshot {cur:?}");
        missing(cur.unwrap_or(0), &got, "ended with snapshot")?;
        c.count("ended_by_range", 1);
        let at = cur.unwrap_or(0);
        c.count("ended_after_faults", (at > 0 && fired[..at].iter().any(|x| *x)) as u64);
    }
    c.count("elements", got.len() as u64);
    c.count("faults", fired.iter().filter(|x| **x).count() as u64);
    c.count("streams", 1);
    c.nontrivial |= cur.unwrap_or(0) > 0 && !got.is_empty();
    c.saw((fired, got.len(), a, b));
    Ok(())
}
fn case(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    let w = *[Weights { repair: 0, retain: 0, ..Weights::ALL }, Weights { repair: 0, retain: 1, ..Weights::ALL }, Weights::APPEND].choose(&mut c.rng).unwrap();
    let faulty = c.rng.gen_bool(0.8);
    let snaps = snaps(&mut c.rng, &mut s, &w, faulty)?;
    c.desc = s.describe();
    for _ in 0..6 {
        let snaps = if c.rng.gen_bool(0.5) { snaps.clone() } else {
            let p = c.rng.gen_range(0.3..1.0);
            snaps.iter().filter(|_| c.rng.gen_bool(p)).cloned().collect()
        };
        run(c, &s, snaps)?;
    }
    Ok(())
}
fn main() {
    runner::main(Prop {
        require: &[("elements", 50_000), ("streams", 10_000), ("faults", 5000), ("ended_by_range", 5000), ("ended_after_faults", 1000), ("chunks", 50_000), ("exhausted", 1000)],
        ..Prop::new("C17", "scripted sequences of snapshots as for C16, streamed backwards with random queries and inclusive ranges (single elements, open ends, beyond the end); an online checker judges order, uniqueness, range and content of each chunk against the snapshot it came from, completeness and the end of the stream; non-trivial: delivery over more than one snapshot; distinct: fault and delivery patterns", case)
    });
}
