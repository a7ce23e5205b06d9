use banyan::{store::ZstdDagCborSeq as Seq, TreeTypes};
use bmon::{alloc, cborx, gen, runner, sess::*, store::*, types::*, walk, *};
use libipld::{cbor::DagCborCodec, codec::Codec, Ipld};
use rand::{seq::SliceRandom, Rng, RngCore};
use std::collections::BTreeMap;

const SKIP: &str = "decoding a chunked byte or text string inside of an array or map panics in cbor-data 0.8.13 validated/mod.rs skip_bytes";
const MAX: usize = 16 << 20;
type K = chacha20::Key;

/// panics of the dependency that are listed as a known finding
fn known(c: &mut Case, e: &Fail) -> bool {
    // only this call site
    let hit = e.0.starts_with("panic at ") && e.0.contains("cbor-data-0.8.13/src/validated/mod.rs:");
    if hit {
        c.known.push(SKIP.into());
        c.count("known_panics", 1);
    }
    hit
}
fn level(rng: &mut gen::Rn) -> i32 {
    match rng.gen_range(0..50) {
        0 => rng.gen_range(4..=12),
        1 => 0,
        2 => -rng.gen_range(1..5),
        _ => rng.gen_range(1..=3),
    }
}
fn offset(rng: &mut gen::Rn) -> u64 {
    match rng.gen_range(0..6) {
        0 => 0,
        1 => rng.gen_range(0..100_000),
        2 => (1u64 << rng.gen_range(0..64)).wrapping_sub(rng.gen_range(0..3)).min(u64::MAX - (1 << 30)),
        3 => (rng.gen_range(0..1000u64) * 64).wrapping_sub(rng.gen_range(0..2)).min(1 << 40),
        4 => u64::MAX - (1 << 30) - rng.gen_range(0..1000),
        _ => rng.gen_range(0..1u64 << 60),
    }
}
fn key(rng: &mut gen::Rn) -> K {
    let mut k = [0; 32];
    rng.fill_bytes(&mut k);
    k.into()
}
fn nonce(rng: &mut gen::Rn) -> [u8; 24] {
    let mut k = [0; 24];
    rng.fill_bytes(&mut k);
    k
}
fn ipld(rng: &mut gen::Rn, depth: u32) -> Ipld {
    match rng.gen_range(0..if depth < 4 { 11 } else { 8 }) {
        0 => Ipld::Null,
        1 => Ipld::Bool(rng.gen()),
        2 => Ipld::Integer((rng.next_u64() >> rng.gen_range(0..64)) as i128),
        3 => Ipld::Integer(-1 - (rng.next_u64() >> rng.gen_range(0..64)) as i128),
        4 => Ipld::Float(rng.gen::<i32>() as f64 / 16.0),
        5 => Ipld::String("sü→"[..].chars().cycle().take(rng.gen_range(0..30)).collect()),
        6 => Ipld::Bytes((0..rng.gen_range(0..80)).map(|_| rng.gen()).collect()),
        7 => Ipld::Link(gen::cid(rng)),
        8 | 9 => Ipld::List((0..rng.gen_range(0..5)).map(|_| ipld(rng, depth + 1)).collect()),
        _ => Ipld::Map((0..rng.gen_range(0..5)).map(|i| (format!("k{i}"), ipld(rng, depth + 1))).collect::<BTreeMap<_, _>>()),
    }
}
fn vals(rng: &mut gen::Rn, n: usize) -> Vec<Val> {
    let typ = *[0usize, 4, 20, 100, 2000].choose(rng).unwrap();
    let links = rng.gen();
    (0..n)
        .map(|_| {
            let mut out = vec![];
            let size = if rng.gen_bool(0.02) { 40_000 } else { rng.gen_range(0..=typ) };
            gen::item(rng, size, links, 0, &mut out);
            Val(out)
        })
        .collect()
}
fn concat(v: &[Val]) -> Vec<u8> {
    v.iter().flat_map(|v| v.0.iter().copied()).collect()
}
/// a sequence says exactly `v`
fn says(c: &mut Case, s: &Seq, v: &[Val], what: &str) -> Res {
    let got: Vec<Val> = ok(s.items(), what)?;
    check!(got == v, "{what}: items() gives {got:?} instead of {v:?}");
    check!(ok(s.count(), what)? == v.len() as u64, "{what}: count() is wrong");
    let n = v.len() as u64;
    for i in [0, n / 2, n.saturating_sub(1), n, n + 1, u64::MAX, c.rng.gen_range(0..=n)] {
        let got: Option<Val> = ok(s.get(i), what)?;
        check!(got.as_ref() == v.get(i.min(1 << 40) as usize), "{what}: get({i}) gives {got:?}");
    }
    let len = match c.rng.gen_range(0..4) {
        0 => c.rng.gen_range(0..=v.len()),
        1 => v.len() + c.rng.gen_range(0..5),
        _ => v.len(),
    };
    let p = *[0.0, 0.1, 0.5, 1.0].choose(&mut c.rng).unwrap();
    let mask: Vec<bool> = (0..len).map(|_| c.rng.gen_bool(p)).collect();
    let got: Vec<Val> = ok(s.select(&mask), what)?;
    let want: Vec<Val> = v.iter().zip(&mask).filter(|x| *x.1).map(|x| x.0.clone()).collect();
    check!(got == want, "{what}: select({mask:?}) gives {} items instead of {}", got.len(), want.len());
    let plain = zstd::stream::decode_all(s.compressed()).map_err(|e| Fail(format!("{what}: not a zstd frame: {e}")))?;
    check!(plain == concat(v), "{what}: the compressed data does not contain the items");
    c.count("sequences_read", 1);
    Ok(())
}
fn wrap(c: &mut Case, s: &Seq, v: &[Val]) -> Res<Vec<u8>> {
    let (k, n, o) = (key(&mut c.rng), nonce(&mut c.rng), offset(&mut c.rng));
    let block = ok(s.encrypt(&k, &n.into(), o), "encrypt")?;
    let (d, r) = ok(Seq::decrypt(&block, &k, &n.into()), "decrypt")?;
    check!(r == (o..o + s.compressed().len() as u64), "decrypt gives the range {r:?} at {o}");
    check!(d == *s, "decrypt gives other data or links");
    says(c, &d, v, &format!("after encrypt and decrypt at {o}"))?;
    // according to the format
    let env = walk::envelope(&block)?;
    check!(env.offset == o, "envelope offset {} instead of {o}", env.offset);
    check!(walk::content(&env, &k, &n)? == concat(v), "the block does not contain the items");
    let want = cborx::links(&concat(v))?;
    check!(env.links.iter().copied().collect::<std::collections::BTreeSet<_>>() == want && env.links.len() == want.len(), "links {:?} instead of {want:?}", env.links);
    c.count("blocks_round_tripped", 1);
    Ok(block)
}
fn round_trip(c: &mut Case) -> Res {
    let n = *[0usize, 1, 2, 5, 20, 200].choose(&mut c.rng).unwrap();
    let v = vals(&mut c.rng, n);
    let l = level(&mut c.rng);
    c.desc = format!("{n} items, {} bytes, level {l}", concat(&v).len());
    let s = ok(Seq::from_iter(v.iter(), l), "from_iter")?;
    says(c, &s, &v, "from_iter")?;
    wrap(c, &s, &v)?;
    if let Some(x) = v.first() {
        let s = ok(Seq::single(x, l), "single")?;
        says(c, &s, &v[..1], "single")?;
    }
    // the same with ipld items
    let i: Vec<Ipld> = (0..n.min(40)).map(|_| ipld(&mut c.rng, 0)).collect();
    let iv: Vec<Val> = i.iter().map(|x| Val(DagCborCodec.encode(x).unwrap())).collect();
    let s = ok(Seq::from_iter_ipld(i.iter(), l), "from_iter_ipld")?;
    says(c, &s, &iv, "from_iter_ipld")?;
    let got: Vec<Ipld> = ok(s.items_ipld(), "items_ipld")?;
    check!(got == i, "items_ipld gives {got:?} instead of {i:?}");
    wrap(c, &s, &iv)?;
    if let Some(x) = i.first() {
        let s = ok(Seq::single_ipld(x, l), "single_ipld")?;
        says(c, &s, &iv[..1], "single_ipld")?;
    }
    c.nontrivial = n > 1;
    c.saw((n, l, concat(&v).len()));
    Ok(())
}
/// filling stops exactly at its limits, without losing or duplicating an item
fn fill(c: &mut Case) -> Res {
    let typ_ipld = c.rng.gen_bool(0.4);
    let n = c.rng.gen_range(0..60);
    let (v, iv): (Vec<Val>, Vec<Ipld>) = if typ_ipld {
        let i: Vec<Ipld> = (0..n).map(|_| ipld(&mut c.rng, 0)).collect();
        (i.iter().map(|x| Val(DagCborCodec.encode(x).unwrap())).collect(), i)
    } else {
        (vals(&mut c.rng, n), vec![])
    };
    let l = level(&mut c.rng);
    let sizes: Vec<usize> = v.iter().map(|v| v.0.len()).collect();
    let total: usize = sizes.iter().sum();
    let biggest = sizes.iter().copied().max().unwrap_or(0);
    let mut pos = 0usize;
    let mut seq: Option<Seq> = None;
    let mut keys: Vec<usize> = vec![];
    let src = ok(Seq::from_iter(v.iter(), 1), "source")?;
    // more than one round: the result of one is the start of the next
    for round in 0..c.rng.gen_range(1..=6) {
        let before = keys.len();
        let had: usize = sizes[..before].iter().sum();
        let comp = *[1usize, 20, 60, 300, 5000, 200_000, usize::MAX].choose(&mut c.rng).unwrap();
        let unc = match c.rng.gen_range(0..6) {
            0 => had + sizes.get(pos).copied().unwrap_or(0),
            1 => had + sizes.iter().skip(pos).take(3).sum::<usize>(),
            2 => (had + sizes.iter().skip(pos).take(3).sum::<usize>()).saturating_sub(1).max(biggest),
            3 => total + 10,
            4 => biggest.max(1),
            _ => c.rng.gen_range(0..=total + 10),
        };
        let max = match c.rng.gen_range(0..4) {
            0 => before + c.rng.gen_range(0..4),
            1 => c.rng.gen_range(0..=before),
            2 => n,
            _ => usize::MAX,
        };
        c.desc = format!("fill round {round}: have {before} items with {had} bytes, limits compressed {comp} uncompressed {unc} count {max}, level {l}, sizes {:?}", &sizes[pos..]);
        let data = seq.as_ref().map(|s| s.compressed().to_vec()).unwrap_or_default();
        let mut k2 = keys.clone();
        let pulled = std::cell::Cell::new(pos);
        let r;
        let rest: Vec<usize>;
        if typ_ipld {
            let mut it = iv[pos..].iter().cloned().enumerate().map(|(i, x)| { pulled.set(pos + i + 1); (pos + i, x) }).peekable();
            r = Seq::fill_ipld(&data, &mut it, &mut k2, l, comp, unc, max);
            rest = it.map(|x| x.0).collect();
        } else {
            // the source is a compressed sequence by itself
            let src = &src;
            let lazy = c.rng.gen_bool(0.3);
            let v = &v;
            let mut it = (pos..n).map(|i| {
                pulled.set(i + 1);
                (i, if lazy { src.get::<Val>(i as u64).expect("source").expect("source") } else { v[i].clone() })
            }).peekable();
            r = Seq::fill(&data, &mut it, &mut k2, l, comp, unc, max);
            rest = it.map(|x| x.0).collect();
        }
        check!(k2[..before] == keys[..], "the keys that were there have changed");
        let k: Vec<usize> = k2[before..].to_vec();
        let together: Vec<usize> = k.iter().chain(rest.iter()).copied().collect();
        check!(together == (pos..n).collect::<Vec<_>>(), "items were lost or duplicated: taken {k:?}, left {rest:?}");
        let end = pos + k.len();
        match r {
            Err(e) => {
                check!(e.to_string() == "single item too large!", "fill fails with {e:#}");
                check!(end < n && sizes[end] > unc, "fill says that item {end} of {:?} bytes is too large for {unc}", sizes.get(end));
                c.count("too_large", 1);
                break;
            }
            Ok((s, full)) => {
                says(c, &s, &v[..end], "fill")?;
                wrap(c, &s, &v[..end])?;
                if typ_ipld {
                    let got: Vec<Ipld> = ok(s.items_ipld(), "items_ipld")?;
                    check!(got == iv[..end], "fill_ipld: other items");
                }
                let size: usize = sizes[..end].iter().sum();
                if !k.is_empty() {
                    check!(size <= unc, "filled {size} bytes, the limit is {unc}");
                    check!(end <= max, "filled {end} items, the limit is {max}");
                }
                // why did it stop?
                let at_count = end >= max;
                let at_comp = s.compressed().len() >= comp;
                let no_room = end < n && size + sizes[end] > unc;
                if end < n {
                    check!(at_count || at_comp || no_room, "stopped at {end} of {n} items ({size} bytes, {} compressed) without reason", s.compressed().len());
                    c.count("stopped_at_a_limit", 1);
                }
                let want = at_count || at_comp || (no_room && !at_count) || size >= unc;
                check!(full == want || (at_comp && full), "full is {full}: {end} items, {size} bytes, {} compressed, next {:?}", s.compressed().len(), sizes.get(end));
                c.count("fills", 1);
                pos = end;
                keys = k2;
                seq = Some(s);
            }
        }
    }
    c.nontrivial = n > 2;
    c.saw((n, total, keys.len()));
    Ok(())
}
fn mutate(rng: &mut gen::Rn, b: &mut Vec<u8>) {
    for _ in 0..rng.gen_range(1..4) {
        let n = b.len();
        match rng.gen_range(0..8) {
            _ if n == 0 => b.push(rng.gen()),
            0 => b.truncate(rng.gen_range(0..n)),
            1 | 2 => {
                let i = rng.gen_range(0..n);
                b[i] ^= 1 << rng.gen_range(0..8)
            }
            3 => {
                let i = rng.gen_range(0..n.min(16));
                b[i] = rng.gen()
            }
            4 => {
                let i = rng.gen_range(0..=n);
                let k = rng.gen_range(1..10);
                for _ in 0..k {
                    b.insert(i, rng.gen())
                }
            }
            5 => {
                let i = rng.gen_range(0..n);
                let e = rng.gen_range(i..=n.min(i + 20));
                b.drain(i..e);
            }
            6 => {
                // a huge length somewhere
                let i = rng.gen_range(0..n);
                let m = rng.gen_range(2..7u8) << 5;
                let mut x = vec![m | 27];
                x.extend((rng.next_u64() >> rng.gen_range(0..40)).to_be_bytes());
                b.splice(i..i + 1, x);
            }
            _ => {
                let i = rng.gen_range(0..n);
                let e = rng.gen_range(i..=n.min(i + 30));
                let part = b[i..e].to_vec();
                b.extend(part);
            }
        }
    }
}
/// everything one can do with a decoded sequence; nothing may crash, and what is returned is
/// well formed
fn probe(c: &mut Case, s: &Seq) -> Res {
    let plain = zstd::stream::decode_all(s.compressed()).ok().filter(|p| p.len() <= MAX);
    // a decoded item needs a small multiple of its size
    let size = plain.as_ref().map(|p| p.len()).unwrap_or(0);
    let limit = MAX + (5 << 20) + 200 * size.max(s.compressed().len());
    let mut max = 0;
    let mut r: Vec<Res> = vec![];
    let (mut ok_any, mut all) = (0, 0);
    macro_rules! call {
        ($what:expr, $f:expr, $ok:expr) => {{
            all += 1;
            let (x, p) = alloc::peak(|| runner::guarded(|| Ok($f)));
            max = max.max(p);
            if p > limit {
                r.push(Err(Fail(format!("{} of {} compressed ({size} plain) bytes allocated {p} bytes", $what, s.compressed().len()))));
            }
            match x {
                Ok(Ok(v)) => { ok_any += 1; let f: &dyn Fn(_) -> Res = &$ok; r.push(f(v)) }
                Ok(Err(_)) => {}
                Err(e) => r.push(Err(Fail(format!("{}", e.0)))),
            }
        }};
    }
    let whole = |v: Vec<Val>| -> Res {
        for x in &v {
            check!(cborx::well_formed(&x.0), "items() returned a malformed item {:?}", x);
        }
        if let Some(p) = &plain {
            check!(concat(&v) == *p, "items() returned other data than the block contains");
        }
        Ok(())
    };
    // very long sequences of tiny items are only counted
    let big = size > 300_000;
    if !big {
        call!("items", s.items::<Val>(), whole);
        call!("items as numbers", s.items::<u64>(), |_| Ok(()));
        call!("items as texts", s.items::<String>(), |_| Ok(()));
        call!("items_ipld", s.items_ipld::<Ipld>(), |_| Ok(()));
        call!("items_ipld as keys", s.items_ipld::<Key>(), |_| Ok(()));
        let mask: Vec<bool> = (0..20).map(|_| c.rng.gen()).collect();
        call!("select", s.select::<Val>(&mask), |v: Vec<Val>| {
            for x in &v { check!(cborx::well_formed(&x.0), "select() returned a malformed item {:?}", x) }
            Ok(())
        });
        let mut keys = vec![];
        let mut it = vec![(1u8, Val(vec![1])), (2, Val(vec![2]))].into_iter().peekable();
        let old = plain.clone();
        call!("fill", Seq::fill(s.compressed(), &mut it, &mut keys, 1, usize::MAX, usize::MAX, 10), |x: (Seq, bool)| {
            let p = zstd::stream::decode_all(x.0.compressed()).map_err(|e| Fail(format!("fill returned no zstd data: {e}")))?;
            if let Some(old) = &old {
                let mut w = old.clone();
                w.extend([1, 2]);
                check!(p == w || s.compressed().is_empty(), "fill returned other data");
            }
            Ok(())
        });
    }
    let i = c.rng.gen_range(0..8);
    call!("get", s.get::<Val>(i), |v: Option<Val>| {
        if let Some(x) = &v { check!(cborx::well_formed(&x.0), "get() returned a malformed item {:?}", x) }
        Ok(())
    });
    let n = plain.as_ref().and_then(|p| cborx::split(p).ok()).map(|x| x.len() as u64);
    call!("count", s.count(), |x: u64| {
        if let Some(n) = n { check!(x == n, "count() is {x}, there are {n} items") }
        Ok(())
    });
    c.max("peak_bytes_while_decoding", max as u64);
    c.count("hostile_decodes", all);
    c.count("hostile_decoded_ok", ok_any);
    for x in r {
        if let Err(e) = x {
            if !known(c, &e) { return Err(e) }
        }
    }
    Ok(())
}
fn envelope_of(rng: &mut gen::Rn, k: &K, n: &[u8; 24], payload: &[u8]) -> Vec<u8> {
    let o = offset(rng);
    let mut b = vec![];
    gen::head(4, 3, &mut b);
    gen::head(0, o, &mut b);
    let links = rng.gen_range(0..3);
    gen::head(4, links, &mut b);
    for _ in 0..links {
        gen::link(&gen::cid(rng), &mut b);
    }
    gen::bytes(&walk::xor(k, n, o, payload), &mut b);
    b
}
/// hostile payloads inside of an intact envelope
fn payload(c: &mut Case) -> (Vec<u8>, &'static str) {
    let rng = &mut c.rng;
    let n = rng.gen_range(0..20);
    let v = concat(&vals(rng, n));
    let z = |d: &[u8]| zstd::encode_all(d, 1).unwrap();
    match rng.gen_range(0..12) {
        0 => {
            let mut b = vec![0; rng.gen_range(0..200)];
            rng.fill_bytes(&mut b);
            (b, "noise")
        }
        1 => {
            let mut b = vec![0; rng.gen_range(0..200)];
            rng.fill_bytes(&mut b);
            (z(&b), "compressed noise")
        }
        2..=4 => {
            let mut b = v;
            mutate(rng, &mut b);
            (z(&b), "mutated cbor")
        }
        5 | 6 => {
            let mut b = z(&v);
            mutate(rng, &mut b);
            (b, "mutated zstd")
        }
        7 => {
            let mut b = z(&v);
            b.extend(z(&[1, 2, 3]));
            (b, "two frames")
        }
        8 => {
            // skippable frames and empty frames
            let mut b = vec![0x50 + rng.gen_range(0..16u8), 0x2a, 0x4d, 0x18];
            let k = rng.gen_range(0..20u32);
            b.extend(if rng.gen() { k } else { rng.gen() }.to_le_bytes());
            b.extend(vec![7; k as usize]);
            if rng.gen() { b.extend(z(&v)) }
            (b, "skippable frame")
        }
        9 => {
            // claims another content size
            let mut e = zstd::stream::Encoder::new(Vec::new(), 1).unwrap();
            let size = *[0u64, 1, 100, 1 << 20, MAX as u64, MAX as u64 + 1, 1 << 30, 1 << 40, u64::MAX - 5].choose(rng).unwrap();
            let _ = e.include_contentsize(false);
            use std::io::Write;
            e.write_all(&v).unwrap();
            let f = e.finish().unwrap();
            // magic, descriptor (8 byte size, no single segment), window, size
            let mut b = f[..4].to_vec();
            b.extend([0xc0, if rng.gen() { 0x58 } else { rng.gen() }]);
            b.extend(size.to_le_bytes());
            b.extend(&f[6.min(f.len())..]);
            (b, "wrong content size")
        }
        10 if rng.gen_bool(0.3) => {
            // a long sequence of tiny items, or one large item, around the buffer sizes
            let n = *[1usize << 20, (4 << 20) - 1, 4 << 20, (4 << 20) + 1, MAX - 1, MAX, MAX + 1, MAX + (1 << 20), 40 << 20, 120 << 20].choose(rng).unwrap();
            let mut b = vec![0u8; n];
            if rng.gen() {
                let mut h = vec![];
                gen::head(2, (n - 5) as u64, &mut h);
                b[..h.len()].copy_from_slice(&h);
                (z(&b), "large item")
            } else {
                (z(&b), "bomb")
            }
        }
        10 => {
            // without a content size in the header
            let mut e = zstd::stream::Encoder::new(Vec::new(), 1).unwrap();
            use std::io::Write;
            let chunk = vec![0u8; 1 << 20];
            for _ in 0..*[1usize, 5, 15, 16, 17, 40].choose(rng).unwrap() {
                e.write_all(&chunk).unwrap();
            }
            (e.finish().unwrap(), "streamed bomb")
        }
        _ => {
            // moderately deep nesting
            let d = rng.gen_range(1..100);
            let mut b = vec![*[0x81u8, 0x9f, 0xd8].choose(rng).unwrap(); 1];
            if b[0] == 0xd8 { b.push(50) }
            let mut b = b.repeat(d);
            b.push(1);
            if b[0] == 0x9f { b.extend(vec![0xff; d]) }
            (z(&b), "nested")
        }
    }
}
fn hostile(c: &mut Case) -> Res {
    let (k, n) = (key(&mut c.rng), nonce(&mut c.rng));
    // 1. arbitrary bytes as a block
    let mut b: Vec<u8> = match c.rng.gen_range(0..4) {
        0 => {
            let mut b = vec![0; c.rng.gen_range(0..200)];
            c.rng.fill_bytes(&mut b);
            b
        }
        1 => {
            // random, but like dag-cbor
            let mut b = vec![0x83];
            for _ in 0..3 { gen::item(&mut c.rng, 40, true, 0, &mut b) }
            b
        }
        _ => {
            let m = c.rng.gen_range(0..10);
            let v = vals(&mut c.rng, m);
            let s = ok(Seq::from_iter(v.iter(), 1), "from_iter")?;
            let o = offset(&mut c.rng);
            ok(s.encrypt(&k, &n.into(), o), "encrypt")?
        }
    };
    if c.rng.gen_bool(0.9) { mutate(&mut c.rng, &mut b) }
    c.desc = format!("block {:02x?} ({} bytes)", &b[..b.len().min(200)], b.len());
    let (r, p) = alloc::peak(|| runner::guarded(|| Ok(Seq::decrypt(&b, &k, &n.into()))));
    check!(p < (1 << 20) + 200 * b.len(), "decrypting {} bytes allocated {p} bytes", b.len());
    c.count("hostile_blocks", 1);
    match r {
        Err(e) => if !known(c, &e) { return Err(e) },
        Ok(Err(_)) => c.count("blocks_refused", 1),
        Ok(Ok((s, range))) => {
            c.count("blocks_accepted", 1);
            check!(range.end - range.start == s.compressed().len() as u64, "range {range:?} for {} bytes", s.compressed().len());
            probe(c, &s)?
        }
    }
    // 2. hostile content in an intact envelope
    let (p, kind) = payload(c);
    let b = envelope_of(&mut c.rng, &k, &n, &p);
    c.desc = format!("{kind}: payload {:02x?} ({} bytes)", &p[..p.len().min(300)], p.len());
    let (s, _) = ok(Seq::decrypt(&b, &k, &n.into()), "decrypt")?;
    check!(s.compressed() == p, "decrypt gives another payload");
    probe(c, &s)?;
    c.count(&format!("payload: {kind}"), 1);
    c.saw((kind, p.len()));
    c.nontrivial = true;
    // 3. the decoder still works on this thread
    let v = vals(&mut c.rng, 3);
    let s = ok(Seq::from_iter(v.iter(), 1), "from_iter")?;
    says(c, &s, &v, "after hostile data")
}
/// hostile branch blocks: what the index decoder makes of them
fn branches(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    s.scale = s.scale.min(60);
    while s.b.level() < 1 {
        let w = Weights { from: 0, reload: 0, ..Weights::APPEND };
        s.run(&mut c.rng, &w, 2)?;
    }
    let t = s.walk()?.unwrap();
    let nodes: Vec<walk::Node> = t.nodes().into_iter().filter(|n| n.m.level > 0).cloned().collect();
    for _ in 0..10 {
        let n = nodes.choose(&mut c.rng).unwrap();
        let block = n.block().unwrap();
        let mut plain = block.plain.clone();
        let kind = c.rng.gen_range(0..4);
        match kind {
            0 => plain.clear(),
            1 => {
                // children in another order, repeated, dropped
                let mut it = ok(cborx::split(&plain).map_err(anyhow::Error::msg), "split")?;
                it.shuffle(&mut c.rng);
                it.truncate(c.rng.gen_range(0..=it.len()));
                plain = it.concat();
            }
            _ => mutate(&mut c.rng, &mut plain),
        }
        let mut z = zstd::encode_all(&plain[..], 1).unwrap();
        if c.rng.gen_bool(0.2) { mutate(&mut c.rng, &mut z) }
        let evil = envelope_of(&mut c.rng, s.secrets.index_key(), TT::NONCE, &z);
        let store = MonStore::new();
        let l = Lnk::digest(&evil);
        store.with(|st| st.blocks.insert(l, evil.clone().into()));
        let f = forest(&store, 0);
        c.desc = format!("branch with plain content {:02x?}", &plain[..plain.len().min(400)]);
        // numbers that can not be those of a tree are not the business of the codec
        let sane = match walk::decode_branch(&evil, &s.secrets) {
            Ok(b) => b.children.iter().all(|m| m.level < 1 << 31 && m.count < 1 << 40 && m.value_bytes < 1 << 40 && m.key_bytes < 1 << 40 && m.summary().is_some()
                && m.sums.iter().all(|s| s.n < 1 << 40) && m.keys.iter().all(|k| k.c < 64)),
            Err(_) => true,
        };
        if !sane { continue }
        let (r, p) = alloc::peak(|| runner::guarded(|| Ok(f.load_tree::<Val>(s.secrets.clone(), l).map(|t| (t.count(), t.level())))));
        check!(p < MAX + (5 << 20) + 400 * (plain.len() + 1000), "loading a branch of {} bytes allocated {p} bytes", evil.len());
        c.count("hostile_branches", 1);
        match r {
            Err(e) => if !known(c, &e) { return Err(e) },
            Ok(Err(_)) => c.count("branches_refused", 1),
            Ok(Ok((count, level))) => {
                c.count("branches_accepted", 1);
                let b = walk::decode_branch(&evil, &s.secrets);
                if let Ok(b) = b {
                    check!(!b.children.is_empty() && count == b.children.iter().map(|m| m.count).sum::<u64>(), "count {count}");
                    check!(level == 1 + b.children.iter().map(|m| m.level as i32).max().unwrap(), "level {level}");
                }
            }
        }
        let r = runner::guarded(|| Ok(f.load_stream_builder::<Val>(s.secrets.clone(), s.cfg.clone(), l).is_ok()));
        if let Err(e) = r { if !known(c, &e) { return Err(e) } }
    }
    c.nontrivial = true;
    Ok(())
}
/// nesting far beyond what is reasonable, in a process of its own
const DEEP: &[&str] = &["count", "items", "get", "select", "items_ipld", "fill", "from_iter", "decrypt"];
fn deep_probe(op: &str) {
    let d = 1_000_000;
    let mut b = vec![0x81u8; d];
    b.push(1);
    let v = Val(b.clone());
    let z = zstd::encode_all(&b[..], 1).unwrap();
    let (k, n): (K, [u8; 24]) = ([1; 32].into(), [2; 24]);
    let mut e = vec![0x83, 0, 0x80];
    gen::bytes(&walk::xor(&k, &n, 0, &z), &mut e);
    let s = Seq::decrypt(&e, &k, &n.into()).unwrap().0;
    match op {
        "count" => drop(s.count()),
        "items" => drop(s.items::<Val>()),
        "get" => drop(s.get::<Val>(0)),
        "select" => drop(s.select::<Val>(&[true])),
        "items_ipld" => drop(s.items_ipld::<Ipld>()),
        "fill" => drop(Seq::fill(s.compressed(), &mut vec![(1u8, Val(vec![1]))].into_iter().peekable(), &mut vec![], 1, 1000, 1 << 24, 10)),
        "from_iter" => drop(Seq::from_iter([v].iter(), 1)),
        "decrypt" => {
            let mut e = vec![0x83, 0, 0x80];
            e.extend(b);
            drop(Seq::decrypt(&e, &k, &n.into()))
        }
        _ => panic!("unknown"),
    }
}
fn deep(c: &mut Case) -> Res {
    // the other listed finding
    let v = Val(vec![0x83, 0x5f, 0x41, 7, 0xff, 1, 2]);
    if let Err(e) = runner::guarded(|| Ok(Seq::from_iter([v].iter(), 1).is_ok())) {
        if !known(c, &e) {
            return Err(e);
        }
    }
    for op in DEEP {
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["--deep", op])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .map_err(|e| Fail(format!("spawn: {e}")))?;
        c.count("deep_nesting_probes", 1);
        if !st.success() {
            c.known.push(format!("{op} with an item nested 1000000 levels deep overflows the stack"));
        }
    }
    Ok(())
}
fn case(c: &mut Case) -> Res {
    if c.index == 0 && std::env::var("BMON_PHASE").is_err() {
        return deep(c);
    }
    match c.rng.gen_range(0..10) {
        0 | 1 => round_trip(c),
        2 | 3 => fill(c),
        4 => branches(c),
        _ => hostile(c),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "--deep") == Some(true) {
        deep_probe(&a[2]);
        std::process::exit(0);
    }
    runner::main(Prop {
        require: &[("sequences_read", 2000), ("blocks_round_tripped", 1000), ("fills", 1000), ("stopped_at_a_limit", 500), ("too_large", 20), ("hostile_blocks", 1500), ("blocks_refused", 300), ("blocks_accepted", 100), ("hostile_decodes", 5000), ("hostile_decoded_ok", 500), ("hostile_branches", 500), ("branches_refused", 100), ("branches_accepted", 50), ("payload: streamed bomb", 20), ("payload: wrong content size", 20)],
        ..Prop::new("C24", "round trips of random item sequences through every encoder and decoder function and through encryption at random offsets, random fills against a reference of its contract, arbitrary and mutated blocks, mutated or malicious payloads (noise, broken CBOR, broken zstd, wrong sizes, bombs, skippable frames) in intact envelopes and mutated branch blocks: no panic, no non-termination, memory use (measured by the allocator) bounded, accepted data well-formed; run a second time under AddressSanitizer (Rust code and the C code of zstd); extremely deep nesting is probed in processes of its own; non-trivial: more than two items or hostile; distinct: sizes and kinds", case)
    });
}
