use banyan::{store::{BlockWriter, BranchCache, MemStore, ReadOnlyStore}, Config, Forest, Secrets, StreamBuilder, Transaction};
use banyan_utils::{ipfs::IpfsStore, sqlite::SqliteStore, tag_index::TagSet, tags::{Key, Sha256Digest, TT}};
use bmon::{check, fail, gen, runner, runner::*, sess::*};
use cid::Cid;
use ipfs_sqlite_block_store::BlockStore;
use libipld::DefaultParams;
use parking_lot::Mutex;
use rand::{seq::SliceRandom, Rng, RngCore, SeedableRng};
use std::{
    collections::HashMap,
    io::Write,
    net::TcpStream,
    path::Path,
    sync::atomic::{AtomicU64, Ordering::SeqCst},
};

#[path = "../http.rs"]
mod http;
type L = Sha256Digest;
fn noise(rng: &mut gen::Rn, max: usize) -> Vec<u8> {
    let mut b = vec![0; rng.gen_range(0..=max)];
    rng.fill_bytes(&mut b);
    b
}
/// a dag-cbor block (what SQLite and IPFS want)
fn block(rng: &mut gen::Rn) -> Vec<u8> {
    let mut b = vec![];
    match rng.gen_range(0..5) {
        0 => gen::bytes(&noise(rng, 40), &mut b),
        1 => {
            let n = if rng.gen_bool(0.05) { 2 << 20 } else { 100_000 };
            gen::bytes(&noise(rng, n), &mut b)
        }
        2 => {
            gen::head(4, 2, &mut b);
            gen::link(&gen::cid(rng), &mut b);
            gen::bytes(&noise(rng, 300), &mut b);
        }
        _ => {
            gen::head(4, 2, &mut b);
            gen::head(0, rng.next_u64(), &mut b);
            gen::bytes(&noise(rng, 2000), &mut b);
        }
    }
    b
}

// ---------------------------------------------------------------- memory
fn mem(c: &mut Case) -> Res {
    let mut rng = gen::Rn::from_rng(&mut c.rng).unwrap();
    let rng = &mut rng;
    let size = *[5usize, 100, 3000].choose(rng).unwrap();
    let pool: Vec<Vec<u8>> = (0..rng.gen_range(1..40)).map(|_| noise(rng, size)).collect();
    let total: usize = pool.iter().map(|b| b.len()).sum();
    let max = match rng.gen_range(0..5) {
        0 => usize::MAX,
        1 => total,
        2 => total.saturating_sub(1),
        3 => 0,
        _ => rng.gen_range(0..=total),
    };
    c.desc = format!("{} blocks of up to {size} bytes, {max} bytes capacity", pool.len());
    let store = MemStore::<L>::new(max, L::new);
    let mut model: HashMap<L, Vec<u8>> = HashMap::new();
    let mut held = 0usize;
    for _ in 0..rng.gen_range(0..100) {
        let b = pool.choose(rng).unwrap();
        let l = L::new(b);
        let mut s = store.clone();
        match rng.gen_range(0..3) {
            0 => {
                let got = store.get(&l);
                match model.get(&l) {
                    Some(b) => check!(got.map_err(|e| Fail(format!("get of a stored block: {e}")))?[..] == b[..], "get returns other bytes"),
                    None => check!(got.is_err(), "get of an unknown link returns data"),
                }
                c.count("mem_gets", 1);
            }
            _ => {
                let fits = held.checked_add(b.len()).map(|x| x <= max).unwrap_or(false);
                match s.put(b.clone()) {
                    Ok(x) => {
                        check!(x == l, "put returns {x}, the digest is {l}");
                        check!(fits || model.contains_key(&l), "a block of {} bytes was accepted with {held} of {max} bytes used", b.len());
                        if model.insert(l, b.clone()).is_none() {
                            held += b.len();
                        }
                        c.count("mem_puts", 1);
                    }
                    Err(e) => {
                        check!(!fits, "a block of {} bytes was refused with {held} of {max} bytes used: {e}", b.len());
                        c.count("mem_refused", 1);
                    }
                }
            }
        }
    }
    for b in &pool {
        let l = L::new(b);
        check!(store.get(&l).ok().as_deref() == model.get(&l).map(|x| &x[..]), "at the end, a block is different");
    }
    // all threads at once
    let n = rng.gen_range(2..6);
    let seeds: Vec<u64> = (0..n).map(|_| rng.gen()).collect();
    let ops = rng.gen_range(10..200);
    let refused: Mutex<Vec<usize>> = Default::default();
    let accepted: Mutex<HashMap<L, Vec<u8>>> = Mutex::new(model);
    let barrier = std::sync::Barrier::new(n);
    let done = AtomicU64::new(0);
    let r: Vec<Res> = std::thread::scope(|sc| {
        let h: Vec<_> = seeds.iter().map(|seed| {
            let (pool, refused, accepted, barrier, done) = (&pool, &refused, &accepted, &barrier, &done);
            let mut s = store.clone();
            sc.spawn(move || runner::guarded(|| {
                let mut rng = gen::Rn::seed_from_u64(*seed);
                barrier.wait();
                for _ in 0..ops {
                    let b = if rng.gen_bool(0.7) { pool.choose(&mut rng).unwrap().clone() } else { noise(&mut rng, size) };
                    let l = L::new(&b);
                    if rng.gen_bool(0.6) {
                        match s.put(b.clone()) {
                            Ok(x) => {
                                check!(x == l, "put returns {x}, the digest is {l}");
                                check!(s.get(&l).ok().as_deref() == Some(&b[..]), "a block that was just put is not there");
                                accepted.lock().insert(l, b);
                            }
                            Err(_) => refused.lock().push(b.len()),
                        }
                    } else {
                        let known = accepted.lock().contains_key(&l);
                        match s.get(&l) {
                            Ok(x) => check!(x[..] == b[..], "get returns other bytes"),
                            Err(e) => check!(!known, "a stored block is gone: {e}"),
                        }
                    }
                    done.fetch_add(1, SeqCst);
                }
                Ok(())
            }))
        }).collect();
        h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail("panic".into())))).collect()
    });
    r.into_iter().collect::<Res<Vec<()>>>()?;
    let accepted = accepted.into_inner();
    let held: usize = accepted.values().map(|b| b.len()).sum();
    check!(held <= max, "{held} bytes are stored, the capacity is {max}");
    for len in refused.into_inner() {
        check!(len > max - held, "a block of {len} bytes was refused, although at most {held} of {max} bytes were used");
        c.count("mem_refused", 1);
    }
    c.count("mem_concurrent_ops", done.load(SeqCst));
    for (l, b) in &accepted {
        check!(store.get(l).ok().as_deref() == Some(&b[..]), "a block that was put is not there at the end");
    }
    let other = store.clone();
    check!(store.into_inner().is_err(), "into_inner of a store that is in use elsewhere succeeds");
    let inner = ok(other.into_inner(), "into_inner")?;
    check!(inner.len() == accepted.len() && inner.iter().all(|(l, b)| accepted.get(l).map(|x| x[..] == b[..]) == Some(true)), "into_inner has other blocks");
    c.saw((max == usize::MAX, held, accepted.len()));
    c.nontrivial = accepted.len() > 1;
    Ok(())
}

// ---------------------------------------------------------------- sqlite
fn open(p: Option<&Path>) -> Res<SqliteStore<DefaultParams>> {
    let c = ipfs_sqlite_block_store::Config::default();
    let b = match p {
        Some(p) => BlockStore::open(p, c),
        None => BlockStore::memory(c),
    };
    Ok(SqliteStore::new(b.map_err(|e| Fail(format!("open: {e}")))?))
}
fn sqlite(c: &mut Case) -> Res {
    let dir = runner::scratch().join(format!("sq{}", c.index));
    std::fs::create_dir_all(&dir).map_err(|e| Fail(e.to_string()))?;
    let r = sqlite_in(c, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn verify(s: &SqliteStore<DefaultParams>, model: &HashMap<L, Vec<u8>>, when: &str) -> Res {
    for (l, b) in model {
        let got = ok(s.get(l), when)?;
        check!(got[..] == b[..], "{when}: get returns other bytes");
    }
    Ok(())
}
fn sqlite_in(c: &mut Case, dir: &Path) -> Res {
    let file = dir.join("db");
    let file = if c.rng.gen_bool(0.8) { Some(file.as_path()) } else { None };
    let mut s = open(file.map(|x| x.as_ref()))?;
    let mut model: HashMap<L, Vec<u8>> = HashMap::new();
    let pool: Vec<Vec<u8>> = (0..c.rng.gen_range(1..20)).map(|_| block(&mut c.rng)).collect();
    let steps = c.rng.gen_range(5..40);
    c.desc = format!("sqlite on {file:?}, {} blocks, {steps} steps", pool.len());
    for _ in 0..steps {
        match c.rng.gen_range(0..10) {
            0..=3 => {
                let b = pool.choose(&mut c.rng).unwrap();
                let l = ok(s.put(b.clone()), "put")?;
                check!(l == L::new(b), "put returns {l}");
                check!(ok(s.get(&l), "get")?[..] == b[..], "get returns other bytes");
                model.insert(l, b.clone());
                c.count("sqlite_puts", 1);
            }
            4 | 5 => {
                let b = pool.choose(&mut c.rng).unwrap();
                let l = L::new(b);
                match (s.get(&l), model.get(&l)) {
                    (Ok(x), Some(b)) => check!(x[..] == b[..], "get returns other bytes"),
                    (Ok(_), None) => fail!("get of an unknown link returns data"),
                    (Err(e), Some(_)) => fail!("a stored block is gone: {e:#}"),
                    (Err(_), None) => c.count("sqlite_unknown", 1),
                }
                c.count("sqlite_gets", 1);
            }
            6 => {
                // not dag-cbor: an error, or stored
                let b = noise(&mut c.rng, 50);
                let l = L::new(&b);
                if model.contains_key(&l) { continue }
                match s.put(b.clone()) {
                    Ok(x) => {
                        check!(x == l && ok(s.get(&l), "get")?[..] == b[..], "accepted noise is not there");
                        model.insert(l, b);
                    }
                    Err(_) => {
                        if let Ok(x) = s.get(&l) {
                            check!(x[..] == b[..], "get returns other bytes");
                        }
                        c.count("sqlite_noise_refused", 1)
                    }
                }
            }
            7 => if let Some(f) = file {
                // another process (connection) sees everything
                let s2 = open(Some(f.as_ref()))?;
                verify(&s2, &model, "through another connection")?;
                c.count("sqlite_second_connection", 1);
            },
            8 => if let Some(f) = file {
                if c.rng.gen_bool(0.5) {
                    drop(s);
                } else {
                    // as if the process had been killed
                    std::mem::forget(s);
                }
                s = open(Some(f.as_ref()))?;
                verify(&s, &model, "after reopening")?;
                c.count("sqlite_reopened", 1);
            },
            _ => if let Some(f) = file {
                // a block is lost
                let mut ls: Vec<L> = model.keys().copied().collect();
                ls.sort();
                if let Some(l) = ls.choose(&mut c.rng) {
                    let con = rusqlite::Connection::open(f).map_err(|e| Fail(e.to_string()))?;
                    let cid = Cid::from(*l).to_bytes();
                    let n = con.execute("DELETE FROM blocks WHERE block_id = (SELECT id FROM cids WHERE cid = ?)", [cid]).map_err(|e| Fail(format!("sql: {e}")))?;
                    check!(n == 1, "{n} blocks deleted");
                    model.remove(l);
                    check!(s.get(l).is_err(), "get of a lost block returns data");
                    c.count("sqlite_lost", 1);
                }
            },
        }
    }
    // all threads at once
    let n = c.rng.gen_range(2..5);
    let seeds: Vec<u64> = (0..n).map(|_| c.rng.gen()).collect();
    let all = Mutex::new(model);
    let r: Vec<Res> = std::thread::scope(|sc| {
        let h: Vec<_> = seeds.iter().map(|seed| {
            let (pool, all) = (&pool, &all);
            let mut s = s.clone();
            sc.spawn(move || runner::guarded(|| {
                let mut rng = gen::Rn::seed_from_u64(*seed);
                for _ in 0..10 {
                    let b = if rng.gen() { pool.choose(&mut rng).unwrap().clone() } else { block(&mut rng) };
                    let l = L::new(&b);
                    if rng.gen() {
                        check!(ok(s.put(b.clone()), "put")? == l, "put returns another link");
                        check!(ok(s.get(&l), "get")?[..] == b[..], "get returns other bytes");
                        all.lock().insert(l, b);
                    } else {
                        let known = all.lock().contains_key(&l);
                        match s.get(&l) {
                            Ok(x) => check!(x[..] == b[..], "get returns other bytes"),
                            Err(e) => check!(!known, "a stored block is gone: {e}"),
                        }
                    }
                }
                Ok(())
            }))
        }).collect();
        h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail("panic".into())))).collect()
    });
    r.into_iter().collect::<Res<Vec<()>>>()?;
    c.count("sqlite_concurrent_ops", 10 * n as u64);
    let model = all.into_inner();
    verify(&s, &model, "at the end")?;
    // a tree on top
    if let (Some(f), true) = (file, c.rng.gen_bool(0.5)) {
        let n = c.rng.gen_range(1..60u64);
        let mut b = StreamBuilder::<TT, String>::new(Config::debug(), Secrets::default());
        let txn = Transaction::new(Forest::new(s.clone(), BranchCache::default()), s.clone());
        let mut txn: Transaction<TT, _, _> = txn;
        let el: Vec<(Key, String)> = (0..n).map(|i| (Key::single(i, i, TagSet::single(format!("t{}", i % 3).into())), format!("v{i}"))).collect();
        ok(txn.extend(&mut b, el.clone()), "extend")?;
        let root = b.link().unwrap();
        drop(txn);
        drop(s);
        s = open(Some(f.as_ref()))?;
        let forest = Forest::<TT, _>::new(s.clone(), BranchCache::default());
        let tree = ok(forest.load_tree::<String>(Secrets::default(), root), "load_tree")?;
        let got: Vec<(Key, String)> = ok(forest.collect(&tree), "collect")?.into_iter().map(|x| x.unwrap()).collect();
        check!(got == el, "a tree on sqlite has other elements after reopening");
        c.count("sqlite_trees", 1);
    }
    // a damaged database: errors, never data
    if let (Some(f), true) = (file, c.rng.gen_bool(0.2)) {
        let con = rusqlite::Connection::open(f).map_err(|e| Fail(e.to_string()))?;
        let table = con.execute_batch("PRAGMA foreign_keys=off; DROP TABLE blocks;");
        if table.is_ok() {
            for l in model.keys() {
                check!(s.get(l).is_err(), "get without a blocks table returns data");
            }
            check!(s.put(block(&mut c.rng)).is_err(), "put without a blocks table succeeds");
            c.count("sqlite_damaged", 1);
        }
    }
    c.saw((model.len(), steps));
    c.nontrivial = model.len() > 1;
    Ok(())
}

// ---------------------------------------------------------------- ipfs
#[derive(Clone, Copy, Debug, PartialEq)]
enum Reply {
    Fine,
    Chunked,
    Slow,
    /// an error status, with the error body of an ipfs node
    Status(u16),
    /// an error status with the block as the body
    StatusWithData(u16),
    /// fewer bytes than announced
    Truncated,
    ChunkedTruncated,
    Close,
    Garbage,
    // only for put
    NotJson,
    NoKey,
    KeyGarbage,
    OtherCodec,
    OtherHash,
    ShortHash,
}
use Reply::*;
const GET_BAD: &[Reply] = &[Status(500), Status(404), Status(400), Status(503), StatusWithData(500), StatusWithData(403), Truncated, ChunkedTruncated, Close, Garbage];
const PUT_BAD: &[Reply] = &[Status(500), Status(403), Truncated, Close, Garbage, NotJson, NoKey, KeyGarbage, OtherCodec, OtherHash, ShortHash];
#[derive(Default)]
struct Node {
    blocks: HashMap<String, Vec<u8>>,
    get: HashMap<String, Reply>,
    put: HashMap<Vec<u8>, Reply>,
    wrong: Vec<String>,
}
fn node() -> &'static Mutex<Node> {
    static N: std::sync::OnceLock<Mutex<Node>> = std::sync::OnceLock::new();
    N.get_or_init(|| {
        http::listen(connection);
        Default::default()
    })
}
fn connection(mut s: TcpStream) -> std::io::Result<()> {
    let mut buf = vec![];
    while let Some(http::Request { head, line, path, query, body }) = http::request(&mut s, &mut buf)? {
        let arg = |n: &str| http::args(&query, n).next().map(|x| String::from_utf8_lossy(&x).into_owned());
        let (reply, data): (Reply, Vec<u8>);
        if !line.starts_with("POST ") {
            node().lock().wrong.push(line.clone());
        }
        if path == "/api/v0/block/get" {
            let a = arg("arg").unwrap_or_default();
            let n = node().lock();
            match n.blocks.get(&a) {
                Some(b) => {
                    data = b.clone();
                    reply = n.get.get(&a).copied().unwrap_or(Fine);
                }
                None => {
                    data = vec![];
                    reply = Status(500);
                }
            }
        } else if path == "/api/v0/block/put" {
            let (content, fine) = http::form(&head, &body);
            let mut n = node().lock();
            if arg("format").as_deref() != Some("cbor") || !fine {
                n.wrong.push(format!("{line} {:?}", String::from_utf8_lossy(&body)));
            }
            reply = n.put.get(&content).copied().unwrap_or(Fine);
            let mh = |code, d: &[u8]| multihash::Multihash::wrap(code, d).unwrap();
            let l = Cid::from(L::new(&content));
            let dig = l.hash().digest().to_vec();
            let key = match reply {
                KeyGarbage => "Qgarbage".into(),
                OtherCodec => Cid::new_v1(0x55, mh(0x12, &dig)).to_string(),
                OtherHash => Cid::new_v1(0x71, mh(0xb220, &dig)).to_string(),
                ShortHash => Cid::new_v1(0x71, mh(0x12, &dig[..20])).to_string(),
                _ => l.to_string(),
            };
            data = match reply {
                NotJson => b"oops".to_vec(),
                NoKey => b"{\"Message\":\"blockstore is full\",\"Code\":0,\"Type\":\"error\"}\n".to_vec(),
                _ => format!("{{\"Key\":\"{key}\",\"Size\":{}}}\n", content.len()).into_bytes(),
            };
            if matches!(reply, Fine | Chunked | Slow) {
                n.blocks.insert(l.to_string(), content);
            }
        } else {
            data = vec![];
            reply = Status(404);
            node().lock().wrong.push(line.clone());
        }
        let plain = |s: &mut TcpStream, status: &str, d: &[u8], announced: usize| -> std::io::Result<()> {
            s.write_all(format!("HTTP/1.1 {status}\r\nContent-Type: application/octet-stream\r\nContent-Length: {announced}\r\n\r\n").as_bytes())?;
            s.write_all(d)
        };
        match reply {
            Chunked | ChunkedTruncated => {
                s.write_all(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")?;
                let part = if reply == Chunked { data.len() } else { data.len() / 2 };
                for ch in data[..part].chunks(1000) {
                    s.write_all(format!("{:x}\r\n", ch.len()).as_bytes())?;
                    s.write_all(ch)?;
                    s.write_all(b"\r\n")?;
                }
                if reply == ChunkedTruncated { return Ok(()) }
                s.write_all(b"0\r\n\r\n")?;
            }
            Status(n) => {
                let m = b"{\"Message\":\"blockservice: key not found\",\"Code\":0,\"Type\":\"error\"}\n";
                plain(&mut s, &format!("{n} Error"), m, m.len())?
            }
            StatusWithData(n) => plain(&mut s, &format!("{n} Error"), &data, data.len())?,
            Truncated => {
                plain(&mut s, "200 OK", &data[..data.len() / 2], data.len() + 1)?;
                return Ok(());
            }
            Close => return Ok(()),
            Garbage => {
                s.write_all(b"\x00\x01garbage\r\n\r\n")?;
                return Ok(());
            }
            _ => {
                if reply == Slow {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                }
                plain(&mut s, "200 OK", &data, data.len())?
            }
        }
    }
    Ok(())
}
fn ipfs(c: &mut Case) -> Res {
    let mut store = IpfsStore::default();
    let mut known: Vec<(L, Vec<u8>)> = vec![];
    let mut shape = vec![];
    for _ in 0..c.rng.gen_range(2..8) {
        match c.rng.gen_range(0..4) {
            0 | 1 => {
                let mut b = block(&mut c.rng);
                b.truncate(300_000);
                let l = L::new(&b);
                let bad = c.rng.gen_bool(0.5);
                let reply = if bad { *PUT_BAD.choose(&mut c.rng).unwrap() } else { *[Fine, Fine, Chunked, Slow].choose(&mut c.rng).unwrap() };
                c.desc = format!("put of {} bytes, the node replies {reply:?}", b.len());
                node().lock().put.insert(b.clone(), reply);
                let r = store.put(b.clone());
                node().lock().put.remove(&b);
                shape.push(format!("put {reply:?}"));
                if bad {
                    check!(r.is_err(), "put succeeds although the node replied {reply:?}");
                    c.count("ipfs_failed_puts", 1);
                } else {
                    check!(ok(r, "put")? == l, "put returns another link");
                    check!(node().lock().blocks.get(&Cid::from(l).to_string()) == Some(&b), "the node got other bytes");
                    known.push((l, b));
                    c.count("ipfs_puts", 1);
                }
            }
            2 if !known.is_empty() => {
                let (l, b) = known.choose(&mut c.rng).unwrap().clone();
                let bad = c.rng.gen_bool(0.5);
                let mut reply = if bad { *GET_BAD.choose(&mut c.rng).unwrap() } else { *[Fine, Chunked, Slow].choose(&mut c.rng).unwrap() };
                if b.is_empty() { reply = Fine }
                let bad = bad && !b.is_empty();
                c.desc = format!("get of {} bytes, the node replies {reply:?}", b.len());
                let key = Cid::from(l).to_string();
                node().lock().get.insert(key.clone(), reply);
                let r = store.get(&l);
                node().lock().get.remove(&key);
                shape.push(format!("get {reply:?}"));
                if bad {
                    check!(r.is_err(), "get returns data although the node replied {reply:?}");
                    c.count("ipfs_failed_gets", 1);
                } else {
                    check!(ok(r, "get")?[..] == b[..], "get returns other bytes");
                    c.count("ipfs_gets", 1);
                }
            }
            _ => {
                let l = L::new(&noise(&mut c.rng, 100));
                c.desc = "get of an unknown link".into();
                check!(store.get(&l).is_err(), "get of an unknown link returns data");
                c.count("ipfs_unknown", 1);
            }
        }
    }
    if c.rng.gen_bool(0.2) {
        // a tree, with many threads reading
        let n = c.rng.gen_range(1..30u64);
        let mut b = StreamBuilder::<TT, String>::new(Config::debug(), Secrets::default());
        let mut txn: Transaction<TT, _, _> = Transaction::new(Forest::new(store.clone(), BranchCache::default()), store.clone());
        let salt = c.rng.next_u64();
        let el: Vec<(Key, String)> = (0..n).map(|i| (Key::single(i, i, TagSet::single("t".into())), format!("{salt}-{i}"))).collect();
        ok(txn.extend(&mut b, el.clone()), "extend")?;
        let root = b.link().unwrap();
        let r: Vec<Res> = std::thread::scope(|sc| {
            let h: Vec<_> = (0..2).map(|_| {
                let (store, el) = (store.clone(), &el);
                sc.spawn(move || {
                    let forest = Forest::<TT, _>::new(store, BranchCache::default());
                    let tree = ok(forest.load_tree::<String>(Secrets::default(), root), "load_tree")?;
                    let got: Vec<(Key, String)> = ok(forest.collect(&tree), "collect")?.into_iter().map(|x| x.unwrap()).collect();
                    check!(got == *el, "a tree on ipfs has other elements");
                    Ok(())
                })
            }).collect();
            h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail("panic".into())))).collect()
        });
        r.into_iter().collect::<Res<Vec<()>>>()?;
        c.count("ipfs_trees", 1);
    }
    let wrong = node().lock().wrong.clone();
    check!(wrong.is_empty(), "unexpected requests: {wrong:?}");
    for (l, _) in known {
        node().lock().blocks.remove(&Cid::from(l).to_string());
    }
    c.saw(shape);
    c.nontrivial = true;
    Ok(())
}
fn case(c: &mut Case) -> Res {
    // ThreadSanitizer does not know the fences which the HTTP client uses
    let tsan = std::env::var("BMON_PHASE").is_ok();
    match c.rng.gen_range(0..if tsan { 8 } else { 10 }) {
        0..=5 => mem(c),
        6 | 7 => sqlite(c),
        _ => ipfs(c),
    }
}
fn main() {
    for k in ["http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY"] {
        std::env::remove_var(k);
    }
    // SQLite initialises itself at its first use, and there ThreadSanitizer reports the unlocked read of the
    // flag that says so (which SQLite does on purpose): have it done before there are other threads.
    drop(rusqlite::Connection::open_in_memory());
    runner::main(Prop {
        require: &[("mem_puts", 5000), ("mem_refused", 2000), ("mem_concurrent_ops", 50_000), ("sqlite_puts", 500), ("sqlite_reopened", 100), ("sqlite_second_connection", 50), ("sqlite_lost", 50), ("sqlite_noise_refused", 20), ("sqlite_concurrent_ops", 1000), ("sqlite_trees", 20), ("sqlite_damaged", 5), ("ipfs_puts", 100), ("ipfs_gets", 30), ("ipfs_failed_puts", 100), ("ipfs_failed_gets", 30), ("ipfs_unknown", 50), ("ipfs_trees", 10)],
        assumptions: &["the ipfs node returns the block that belongs to a cid when it replies with success", "SQLite itself is durable"],
        ..Prop::new("C19", "memory store: random puts and gets against a model with a random capacity, then from 2-5 threads at once with an offline checker (nothing accepted is lost, nothing refused would have fitted, the capacity holds); SQLite store: random puts, gets, noise, reopening (also without closing), second connections, deleted rows, a dropped table, threads, and trees; IPFS store: against a scripted HTTP node on the loopback interface that replies correctly (plain, chunked, slow) or with error states, truncated bodies, closed connections, garbage and wrong cids; non-trivial: more than one block; distinct: sizes, capacities and scripts of replies", case)
    });
}
