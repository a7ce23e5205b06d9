//! Exchange of streams over pubsub: the library functions and the live commands of the command
//! line tool, against a scripted IPFS node on the loopback interface.
use banyan::{store::{BlockWriter, BranchCache, ReadOnlyStore}, Config, Forest, Secrets, StreamBuilder, Transaction};
use banyan_utils::{create_chacha_key, ipfs::{pubsub_pub, pubsub_sub}, tag_index::TagSet, tags::{Key, Sha256Digest, TT}};
use bmon::{check, fail, gen, runner, runner::*, sess::*};
use cid::Cid;
use futures::StreamExt;
use parking_lot::Mutex;
use rand::{seq::SliceRandom, Rng, RngCore};
use std::{
    collections::{HashMap, HashSet},
    fs,
    io::Write,
    net::TcpStream,
    path::PathBuf,
    process::{Child, Command, Stdio},
    str::FromStr,
    sync::{mpsc, Arc},
    time::{Duration, Instant},
};
#[path = "../http.rs"]
mod http;
type L = Sha256Digest;

// ---------------------------------------------------------------- the node
#[derive(Clone, Copy, Debug, PartialEq)]
enum Framing {
    Chunked,
    UntilClose,
    Length,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Clean,
    /// the connection is lost
    Abort,
    /// instead of any response
    Close,
}
#[derive(Clone, Debug)]
struct Script {
    status: u16,
    framing: Framing,
    /// what is written at once, and the pause before
    pieces: Vec<(Vec<u8>, u64)>,
    end: End,
}
#[derive(Default)]
struct Node {
    scripts: HashMap<Vec<u8>, Script>,
    /// topics where what is published is passed on to the subscribers
    hubs: HashMap<Vec<u8>, Vec<mpsc::Sender<Vec<u8>>>>,
    published: HashMap<Vec<u8>, Vec<Vec<u8>>>,
    /// replies to pub. After so many good ones.
    refuse: HashMap<Vec<u8>, (usize, u16)>,
    blocks: HashMap<String, Vec<u8>>,
    wrong: Vec<String>,
}
fn node() -> &'static Mutex<Node> {
    static N: std::sync::OnceLock<Mutex<Node>> = std::sync::OnceLock::new();
    N.get_or_init(|| {
        http::listen(connection);
        Default::default()
    })
}
fn plain(s: &mut TcpStream, status: u16, d: &[u8]) -> std::io::Result<()> {
    s.write_all(format!("HTTP/1.1 {status} Status\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n", d.len()).as_bytes())?;
    s.write_all(d)
}
const REFUSED: &[u8] = b"{\"Message\":\"experimental pubsub feature not enabled\",\"Code\":0,\"Type\":\"error\"}\n";
fn connection(mut s: TcpStream) -> std::io::Result<()> {
    let mut buf = vec![];
    while let Some(http::Request { head, line, path, query, body }) = http::request(&mut s, &mut buf)? {
        let args: Vec<Vec<u8>> = http::args(&query, "arg").collect();
        if !line.starts_with("POST ") {
            node().lock().wrong.push(line.clone());
        }
        match (&*path, &args[..]) {
            ("/api/v0/pubsub/sub", [topic]) => {
                let script = node().lock().scripts.get(topic).cloned();
                match script {
                    Some(x) => {
                        run_script(&mut s, &x)?;
                        if x.framing != Framing::Chunked || x.end != End::Clean {
                            return Ok(());
                        }
                    }
                    None => return hub(&mut s, topic),
                }
            }
            ("/api/v0/pubsub/pub", [topic, data]) => {
                let mut n = node().lock();
                let all = n.published.entry(topic.clone()).or_default();
                let i = all.len();
                all.push(data.clone());
                let refuse = n.refuse.get(topic).filter(|x| x.0 <= i).map(|x| x.1);
                if refuse.is_none() {
                    if let Some(l) = n.hubs.get(topic) {
                        for x in l {
                            let _ = x.send(data.clone());
                        }
                    }
                }
                drop(n);
                match refuse {
                    Some(0) => return Ok(()),
                    Some(code) => plain(&mut s, code, REFUSED)?,
                    None => plain(&mut s, 200, b"")?,
                }
            }
            ("/api/v0/block/get", [link]) => {
                let b = node().lock().blocks.get(&String::from_utf8_lossy(link).into_owned()).cloned();
                match b {
                    Some(b) => plain(&mut s, 200, &b)?,
                    None => plain(&mut s, 500, b"{\"Message\":\"blockservice: key not found\",\"Code\":0,\"Type\":\"error\"}\n")?,
                }
            }
            ("/api/v0/block/put", _) => {
                let (content, fine) = http::form(&head, &body);
                let l = Cid::from(L::new(&content)).to_string();
                let mut n = node().lock();
                if !fine {
                    n.wrong.push(format!("{line} {:?}", String::from_utf8_lossy(&body)));
                }
                n.blocks.insert(l.clone(), content);
                drop(n);
                plain(&mut s, 200, format!("{{\"Key\":\"{l}\",\"Size\":1}}\n").as_bytes())?
            }
            _ => {
                node().lock().wrong.push(line.clone());
                plain(&mut s, 404, b"404 page not found")?
            }
        }
    }
    Ok(())
}
fn run_script(s: &mut TcpStream, x: &Script) -> std::io::Result<()> {
    if x.end == End::Close {
        return Ok(());
    }
    let total: usize = x.pieces.iter().map(|p| p.0.len()).sum();
    let header = match x.framing {
        Framing::Chunked => "Transfer-Encoding: chunked".into(),
        Framing::UntilClose => "Connection: close".into(),
        Framing::Length => format!("Content-Length: {}", total + (x.end == End::Abort) as usize),
    };
    s.write_all(format!("HTTP/1.1 {} Status\r\nContent-Type: application/json\r\n{header}\r\n\r\n", x.status).as_bytes())?;
    for (p, ms) in &x.pieces {
        if *ms > 0 {
            std::thread::sleep(Duration::from_millis(*ms));
        }
        if p.is_empty() {
            continue;
        }
        if x.framing == Framing::Chunked {
            let mut c = format!("{:x}\r\n", p.len()).into_bytes();
            c.extend(p);
            c.extend(b"\r\n");
            s.write_all(&c)?;
        } else {
            s.write_all(p)?;
        }
    }
    if x.framing == Framing::Chunked && x.end == End::Clean {
        s.write_all(b"0\r\n\r\n")?;
    }
    Ok(())
}
/// a live subscription, until the hub is removed
fn hub(s: &mut TcpStream, topic: &[u8]) -> std::io::Result<()> {
    let (tx, rx) = mpsc::channel();
    match node().lock().hubs.get_mut(topic) {
        Some(x) => x.push(tx),
        None => return plain(s, 500, REFUSED),
    }
    s.write_all(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")?;
    while let Ok(data) = rx.recv() {
        let e = event(&data, "Qm", topic);
        s.write_all(format!("{:x}\r\n{e}\r\n", e.len()).as_bytes())?;
    }
    s.write_all(b"0\r\n\r\n")
}
fn base64(d: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in d.chunks(3) {
        let x = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            s.push(if i <= c.len() { A[(x >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    s
}
fn event(data: &[u8], from: &str, topic: &[u8]) -> String {
    format!("{{\"from\":\"{}\",\"data\":\"{}\",\"seqno\":\"{}\",\"topicIDs\":[{}]}}\n", base64(from.as_bytes()), base64(data), base64(b"12345678"), serde_json::to_string(&String::from_utf8_lossy(topic)).unwrap())
}
/// the same event, in another notation
fn styled(rng: &mut gen::Rn, data: &[u8], topic: &str) -> Vec<u8> {
    let from = "x".repeat(rng.gen_range(0..40));
    if rng.gen_bool(0.5) {
        return event(data, &from, topic.as_bytes()).into();
    }
    let mut b = base64(data);
    if rng.gen_bool(0.3) {
        b = b.replace('/', "\\/").replace('+', "\\u002b");
    }
    let mut f = vec![format!("\"from\":\"{from}\""), format!("\"data\":\"{b}\""), format!("\"seqno\":{}", ["\"FQ==\"", "null", "17", "[1,{}]"].choose(rng).unwrap()), format!("\"topicIDs\":[{}]", serde_json::to_string(topic).unwrap())];
    if rng.gen() {
        f.push("\"signature\":\"}{\\\"\\n\"".into());
    }
    f.shuffle(rng);
    let sep = *[",", ", ", ",\n  "].choose(rng).unwrap();
    let end = *["\n", "\n", "\r\n", "\n\n"].choose(rng).unwrap();
    format!("{{{}}}{end}", f.join(sep)).into()
}
/// cut into what is written at once
fn cut(rng: &mut gen::Rn, body: &[u8], ends: &[usize]) -> Vec<(Vec<u8>, u64)> {
    let mut at: Vec<usize> = match rng.gen_range(0..5) {
        // one event each
        0 => ends.to_vec(),
        // all at once
        1 => vec![],
        // anywhere
        2 => (0..rng.gen_range(1..20)).map(|_| rng.gen_range(0..=body.len())).collect(),
        // close to the ends of events
        3 => ends.iter().map(|x| (x + rng.gen_range(0..5)).saturating_sub(2)).collect(),
        _ => {
            let n = rng.gen_range(1..50);
            (0..body.len()).step_by((body.len() / n).max(1)).collect()
        }
    };
    at.push(body.len());
    at.retain(|x| *x <= body.len());
    at.sort();
    let mut v = vec![];
    let mut from = 0;
    let slow = rng.gen_bool(0.5);
    for to in at {
        v.push((body[from..to].to_vec(), if slow && rng.gen_bool(0.5) { rng.gen_range(1..4) } else { 0 }));
        from = to;
    }
    v
}
fn topic(rng: &mut gen::Rn, index: u64) -> String {
    let odd = *["", "a b", "x&arg=y", "ü→", "100%", "%41", "a+b", "#?", "/", "\"q\"", "banyan"].choose(rng).unwrap();
    format!("{odd}{index}")
}

// ---------------------------------------------------------------- the library
fn runtime() -> &'static tokio::runtime::Runtime {
    static R: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
    R.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap())
}
fn noise(rng: &mut gen::Rn, max: usize) -> Vec<u8> {
    let mut b = vec![0; rng.gen_range(0..=max)];
    rng.fill_bytes(&mut b);
    b
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Flaw {
    Intact,
    /// the body ends within an event
    Partial,
    Abort,
    PartialAbort,
    Close,
    Status(u16),
    NoJson,
    NoBase64,
    NoData,
    NumberAsData,
}
use Flaw::*;
fn subscribe(c: &mut Case) -> Res {
    let t = topic(&mut c.rng, c.index);
    let rng = &mut c.rng;
    let max = *[0, 10, 60, 2000, 50_000].choose(rng).unwrap();
    let msgs: Vec<Vec<u8>> = (0..rng.gen_range(0..12)).map(|_| noise(rng, max)).collect();
    let flaw = if rng.gen_bool(0.5) { Intact } else { *[Partial, Abort, PartialAbort, Close, Status(500), Status(403), Status(404), NoJson, NoBase64, NoData, NumberAsData].choose(rng).unwrap() };
    let mut framing = *[Framing::Chunked, Framing::Chunked, Framing::UntilClose, Framing::Length].choose(rng).unwrap();
    if matches!(flaw, Abort) && framing == Framing::UntilClose {
        // this is a proper end
        framing = Framing::Chunked;
    }
    let at = rng.gen_range(0..=msgs.len());
    let mut body = vec![];
    let mut ends = vec![];
    let mut delivered = msgs.len();
    for i in 0..=msgs.len() {
        if i == at && !matches!(flaw, Intact | Abort | Close | Status(_)) {
            let m = noise(rng, 100);
            let e = styled(rng, &m, &t);
            delivered = i;
            match flaw {
                Partial | PartialAbort => {
                    // (a part without the closing brace)
                    let len = e.iter().rposition(|x| *x == b'}').unwrap();
                    body.extend(&e[..rng.gen_range(1..=len)]);
                }
                NoJson => body.extend([&b"oops\n"[..], b"]\n", b"{\"from\" 7}\n", b"\xff\xfe\n", b"{]\n"].choose(rng).unwrap().iter()),
                NoBase64 => body.extend(b"{\"from\":\"\",\"data\":\"A?==\",\"seqno\":\"\",\"topicIDs\":[]}\n"),
                NoData => body.extend(b"{\"from\":\"\",\"seqno\":\"\",\"topicIDs\":[]}\n"),
                _ => body.extend(b"{\"from\":\"\",\"data\":7,\"seqno\":\"\",\"topicIDs\":[]}\n"),
            }
            ends.push(body.len());
            if matches!(flaw, Partial | PartialAbort) {
                break;
            }
        }
        if let Some(m) = msgs.get(i) {
            body.extend(styled(rng, m, &t));
            ends.push(body.len());
        }
    }
    let status = match flaw {
        Status(n) => {
            delivered = 0;
            if rng.gen() {
                body = REFUSED.to_vec();
                ends.clear();
            }
            n
        }
        Close => {
            delivered = 0;
            0
        }
        _ => 200,
    };
    let end = match flaw {
        Abort | PartialAbort => End::Abort,
        Close => End::Close,
        _ => End::Clean,
    };
    let pieces = cut(rng, &body, &ends);
    c.desc = format!("subscription to {t:?}, {} messages of up to {max} bytes in {} pieces, {framing:?}, {flaw:?} at {at}", msgs.len(), pieces.len());
    c.saw((msgs.len(), pieces.iter().map(|p| p.0.len()).collect::<Vec<_>>(), format!("{flaw:?} {framing:?}")));
    c.count("pieces", pieces.len() as u64);
    let n_pieces = pieces.iter().filter(|p| !p.0.is_empty()).count();
    if n_pieces > 0 && n_pieces != msgs.len() {
        c.count("bodies_cut_elsewhere", 1);
    }
    node().lock().scripts.insert(t.clone().into(), Script { status, framing, pieces, end });
    let r = runtime().block_on(async {
        let limit = Instant::now() + Duration::from_secs(60);
        let mut s = Box::pin(ok(pubsub_sub(&t).map_err(anyhow::Error::from), "pubsub_sub")?);
        let mut got = vec![];
        let mut failed = None;
        loop {
            let left = limit.saturating_duration_since(Instant::now());
            match tokio::time::timeout(left, s.next()).await {
                Err(_) => fail!("the subscription does not end; so far {} messages", got.len()),
                Ok(None) => break,
                Ok(Some(Ok(x))) => got.push((failed.is_some(), x)),
                Ok(Some(Err(e))) => failed = failed.or(Some(format!("{e}"))),
            }
            check!(got.len() <= msgs.len() + 1, "more messages than were sent");
        }
        Ok((got, failed))
    });
    node().lock().scripts.remove(t.as_bytes());
    let (got, failed) = r?;
    let good: Vec<&Vec<u8>> = got.iter().filter(|x| !x.0).map(|x| &x.1).collect();
    for (i, (g, w)) in good.iter().zip(&msgs).enumerate() {
        check!(*g == w, "message {i} has {} bytes, {} were sent", g.len(), w.len());
    }
    check!(good.len() == delivered, "{} messages were received, {delivered} were sent; {failed:?}", good.len());
    match flaw {
        Intact => check!(failed.is_none(), "an intact subscription fails: {failed:?}"),
        _ => check!(failed.is_some(), "the subscription ends without an error"),
    }
    // nothing is invented after an error
    for (_, x) in got.iter().filter(|x| x.0) {
        check!(msgs.contains(x), "a message that was not sent is received after an error");
    }
    c.count("messages", good.len() as u64);
    c.count(if flaw == Intact { "intact_subscriptions" } else { "failed_subscriptions" }, 1);
    c.nontrivial = msgs.len() > 1;
    Ok(())
}
fn publish(c: &mut Case) -> Res {
    let t = topic(&mut c.rng, c.index);
    let max = *[0, 10, 200, 5000].choose(&mut c.rng).unwrap();
    let msgs: Vec<Vec<u8>> = (0..c.rng.gen_range(1..8)).map(|_| noise(&mut c.rng, max)).collect();
    let refuse = if c.rng.gen_bool(0.4) { Some((c.rng.gen_range(0..msgs.len()), *[500, 403, 404, 503, 0].choose(&mut c.rng).unwrap())) } else { None };
    c.desc = format!("{} messages of up to {max} bytes to {t:?}, refused: {refuse:?}", msgs.len());
    if let Some(r) = refuse {
        node().lock().refuse.insert(t.clone().into(), r);
    }
    for (i, m) in msgs.iter().enumerate() {
        let r = runtime().block_on(async { tokio::time::timeout(Duration::from_secs(60), pubsub_pub(&t, m)).await });
        let r = match r {
            Ok(r) => r,
            Err(_) => fail!("pubsub_pub does not end"),
        };
        match refuse {
            Some((n, code)) if n <= i => {
                check!(r.is_err(), "pubsub_pub succeeds although the node replied with the status {code} (0: closed the connection)");
                c.count("refused", 1);
                break;
            }
            _ => ok(r, "pubsub_pub")?,
        }
        c.count("published", 1);
    }
    let mut n = node().lock();
    n.refuse.remove(t.as_bytes());
    let got = n.published.remove(t.as_bytes()).unwrap_or_default();
    // (a closed connection makes the client try again)
    let sent = refuse.map(|x| x.0 + 1).unwrap_or(msgs.len());
    check!(got.len() >= sent && got[..sent] == msgs[..sent], "the node got {} other messages than the {sent} that were published", got.len());
    check!(got.iter().skip(sent).all(|x| *x == msgs[sent - 1]) && (got.len() == sent || refuse.is_some()), "the node got more messages than were published");
    drop(n);
    c.saw(msgs.iter().map(|m| m.len()).collect::<Vec<_>>());
    c.nontrivial = msgs.len() > 1;
    Ok(())
}

// ---------------------------------------------------------------- the command line tool
fn io<T>(r: std::io::Result<T>, what: &str) -> T {
    r.unwrap_or_else(|e| {
        eprintln!("{what}: {e}");
        std::process::exit(2)
    })
}
struct Running {
    child: Child,
    out: PathBuf,
    err: PathBuf,
}
struct Out {
    code: Option<i32>,
    out: String,
    err: String,
}
type Pass = (Option<String>, Option<String>);
fn spawn(pass: &Pass, args: &[&str]) -> Running {
    static RUNS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let target = PathBuf::from(std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into()));
    let mut c = Command::new(target.join("debug/banyan-cli"));
    c.args(["--storage", "ipfs"]);
    if let Some(p) = &pass.0 {
        c.arg("--index-pass").arg(p);
    }
    if let Some(p) = &pass.1 {
        c.arg("--value-pass").arg(p);
    }
    c.args(args).env("RUST_BACKTRACE", "0").stdin(Stdio::null());
    let id = RUNS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let (out, err) = (runner::scratch().join(format!("o{id}")), runner::scratch().join(format!("e{id}")));
    c.stdout(io(fs::File::create(&out), "scratch")).stderr(io(fs::File::create(&err), "scratch"));
    Running { child: io(c.spawn(), "spawn banyan-cli"), out, err }
}
impl Running {
    /// the output, or None if it is still running at the end of the time
    fn wait(&mut self, limit: Duration) -> Option<Out> {
        let t = Instant::now();
        loop {
            if let Some(s) = io(self.child.try_wait(), "wait") {
                let read = |p: &PathBuf| String::from_utf8_lossy(&io(fs::read(p), "scratch")).into_owned();
                return Some(Out { code: s.code(), out: read(&self.out), err: read(&self.err) });
            }
            if t.elapsed() > limit {
                return None;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    fn kill(&mut self) -> Option<Out> {
        let _ = self.child.kill();
        self.wait(Duration::from_secs(20))
    }
}
impl Drop for Running {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = fs::remove_file(&self.out);
        let _ = fs::remove_file(&self.err);
    }
}
/// the blocks of the node, without going through HTTP
#[derive(Clone)]
struct Blocks(Arc<Mutex<HashSet<String>>>);
impl ReadOnlyStore<L> for Blocks {
    fn get(&self, l: &L) -> anyhow::Result<Box<[u8]>> {
        let b = node().lock().blocks.get(&Cid::from(*l).to_string()).cloned().ok_or_else(|| anyhow::anyhow!("no block {l}"))?;
        anyhow::ensure!(L::new(&b) == *l, "the block {l} has other content");
        Ok(b.into())
    }
}
impl BlockWriter<L> for Blocks {
    fn put(&mut self, b: Vec<u8>) -> anyhow::Result<L> {
        let l = L::new(&b);
        let k = Cid::from(l).to_string();
        node().lock().blocks.insert(k.clone(), b);
        self.0.lock().insert(k);
        Ok(l)
    }
}
impl Blocks {
    fn new() -> Self {
        Blocks(Default::default())
    }
}
impl Drop for Blocks {
    fn drop(&mut self) {
        if Arc::strong_count(&self.0) == 1 {
            let mut n = node().lock();
            for k in self.0.lock().drain() {
                n.blocks.remove(&k);
            }
        }
    }
}
fn secrets(p: &Pass) -> Secrets {
    let k = |p: &Option<String>| p.clone().map(create_chacha_key).unwrap_or_default();
    Secrets::new(k(&p.0), k(&p.1))
}
fn pass(rng: &mut gen::Rn, salt: u64) -> Pass {
    // (all at least with an own value, so that the blocks of cases are different)
    let mut p = |x: &str, o: f64| rng.gen_bool(o).then(|| format!("{x}{salt}-{}", rng.gen::<u32>()));
    (p("i", 0.5), p("v", 1.0))
}
fn printed(els: &[(Key, String)]) -> Vec<String> {
    els.iter().enumerate().map(|(o, (k, v))| format!("{:?}", Ok::<_, ()>((o as u64, k, v)))).collect()
}
fn same_lines(out: &str, want: &[String], what: &str) -> Res {
    let got: Vec<&str> = out.lines().collect();
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        check!(g == w, "{what}: line {i} is {g:?} instead of {w:?}");
    }
    check!(got.len() == want.len(), "{what}: {} elements are printed instead of {}", got.len(), want.len());
    Ok(())
}
fn tags(j: u64) -> &'static str {
    match (j % 3 == 0, j % 5 == 0) {
        (true, true) => "fizzbuzz",
        (true, false) => "fizz",
        (false, true) => "buzz",
        _ => "we.like.long.identifiers.because.they.seem.professional",
    }
}
/// recv-stream, with a scripted subscription
fn receive(c: &mut Case) -> Res {
    let t = topic(&mut c.rng, c.index);
    let p = pass(&mut c.rng, c.index);
    let store = Blocks::new();
    let mut txn: Transaction<TT, _, _> = Transaction::new(Forest::new(store.clone(), BranchCache::default()), store.clone());
    let mut config = Config::debug();
    config.zstd_level = 1;
    let mut b = StreamBuilder::<TT, String>::new(config, secrets(&p));
    let mut els: Vec<(Key, String)> = vec![];
    let mut roots: Vec<(L, usize)> = vec![];
    let rng = &mut c.rng;
    for _ in 0..rng.gen_range(1..8) {
        let n = *[1, 1, 3, 10, 60].choose(rng).unwrap();
        let new: Vec<(Key, String)> = (0..n)
            .map(|i| {
                let o = (els.len() + i) as u64;
                (Key::single(o, rng.gen_range(0..100), TagSet::single(["a", "b"].choose(rng).unwrap().to_string().into())), format!("{}-{o}", c.index))
            })
            .collect();
        els.extend(new.clone());
        if rng.gen() {
            ok(txn.extend(&mut b, new), "extend")?;
        } else {
            ok(txn.extend_unpacked(&mut b, new), "extend_unpacked")?;
        }
        if rng.gen_bool(0.3) {
            ok(txn.pack(&mut b), "pack")?;
        }
        if b.level() > 0 || roots.is_empty() {
            roots.push((b.link().unwrap(), els.len()));
        }
    }
    // what can be loaded from a link: branches only
    let f = Forest::<TT, _>::new(store.clone(), BranchCache::default());
    let loads = |l: &L| f.load_tree::<String>(secrets(&p), *l).map(|t| t.count()).ok();
    let mut reached = 0;
    let mut body = vec![];
    let mut ends = vec![];
    let mut shape = vec![];
    for (l, n) in &roots {
        // things that must be skipped
        while rng.gen_bool(0.25) {
            let x: Vec<u8> = match rng.gen_range(0..4) {
                0 => noise(rng, 50),
                1 => b"not a link".to_vec(),
                2 => L::new(&noise(rng, 50)).to_string().into(),
                _ => vec![],
            };
            body.extend(styled(rng, &x, &t));
            ends.push(body.len());
            shape.push(0);
        }
        let (l, n) = if rng.gen_bool(0.1) { *roots.choose(rng).unwrap() } else { (*l, *n) };
        let count = loads(&l);
        check!(count.is_none() || count == Some(n as u64), "a root has {count:?} elements instead of {n}");
        if count.is_some() {
            reached = reached.max(n);
        }
        shape.push(n);
        body.extend(styled(rng, l.to_string().as_bytes(), &t));
        ends.push(body.len());
    }
    let end = *[End::Clean, End::Clean, End::Abort, End::Close].choose(rng).unwrap();
    if end == End::Close {
        reached = 0;
    }
    let status = if rng.gen_bool(0.1) { 500 } else { 200 };
    if status != 200 {
        reached = 0;
    }
    let pieces = cut(rng, &body, &ends);
    c.desc = format!("recv-stream from {t:?}: messages {shape:?} in {} pieces, {end:?}, status {status}", pieces.len());
    node().lock().scripts.insert(t.clone().into(), Script { status, framing: Framing::Chunked, pieces, end });
    let wrong = rng.gen_bool(0.1);
    let p = if wrong { (Some("wrong".into()), Some("wrong".into())) } else { p };
    let o = spawn(&p, &["recv-stream", "--topic", &t]).wait(Duration::from_secs(100));
    node().lock().scripts.remove(t.as_bytes());
    let o = match o {
        Some(o) => o,
        None => fail!("recv-stream does not end"),
    };
    let want = if wrong { vec![] } else { printed(&els[..reached]) };
    same_lines(&o.out, &want, "recv-stream").map_err(|e| Fail(format!("{} (exit {:?}: {})", e.0, o.code, o.err.trim())))?;
    let fine = end == End::Clean && status == 200;
    check!(o.code == Some(if fine { 0 } else { 1 }), "recv-stream exits with {:?}: {}", o.code, o.err.trim());
    c.count(if fine { "received" } else { "failed_receivers" }, 1);
    c.count("elements_received", want.len() as u64);
    c.saw((shape, format!("{end:?}")));
    c.nontrivial = want.len() > 1;
    Ok(())
}
/// send-stream, and receivers that join at different times
fn live(c: &mut Case) -> Res {
    let t = topic(&mut c.rng, c.index);
    let p = pass(&mut c.rng, c.index);
    let ticks = c.rng.gen_range(2..5usize);
    let refuse = c.rng.gen_bool(0.4);
    c.desc = format!("send-stream to {t:?}, {ticks} roots, refused afterwards: {refuse}");
    {
        let mut n = node().lock();
        n.hubs.insert(t.clone().into(), vec![]);
        if refuse {
            n.refuse.insert(t.clone().into(), (ticks, *[500, 403].choose(&mut c.rng).unwrap()));
        }
    }
    let subscribers = || node().lock().hubs.get(t.as_bytes()).map(|x| x.len()).unwrap_or(0);
    let published = || node().lock().published.get(t.as_bytes()).map(|x| x.len()).unwrap_or(0);
    let limit = Instant::now() + Duration::from_secs(120);
    let joins: usize = c.rng.gen_range(1..3);
    let mut receivers = vec![];
    let r = (|| -> Res<_> {
        for i in 0..joins {
            receivers.push(spawn(&p, &["recv-stream", "--topic", &t]));
            while subscribers() <= i {
                check!(Instant::now() < limit, "recv-stream does not subscribe");
                std::thread::sleep(Duration::from_millis(5));
            }
        }
        let mut sender = spawn(&p, &["send-stream", "--topic", &t]);
        let o = loop {
            if published() >= ticks && !refuse {
                break sender.kill();
            }
            if let Some(o) = sender.wait(Duration::from_millis(20)) {
                break Some(o);
            }
            check!(Instant::now() < limit, "send-stream has published {} roots", published());
        };
        let o = o.ok_or_else(|| Fail("send-stream can not be killed".into()))?;
        if refuse {
            check!(o.code == Some(1), "the node refuses to publish, send-stream exits with {:?}: {}", o.code, o.err.trim());
        } else {
            check!(o.code.is_none(), "send-stream exits with {:?}: {}", o.code, o.err.trim());
        }
        Ok(o)
    })();
    let all = {
        let mut n = node().lock();
        n.hubs.remove(t.as_bytes());
        n.refuse.remove(t.as_bytes());
        n.published.remove(t.as_bytes()).unwrap_or_default()
    };
    let o = r?;
    check!(all.len() >= ticks, "{} roots were published", all.len());
    // each root is a readable stream with one more element
    let f = Forest::<TT, _>::new(Blocks::new(), BranchCache::default());
    let mut last: Vec<(Key, String)> = vec![];
    let mut arrived = 0;
    for (i, m) in all.iter().enumerate() {
        let l = String::from_utf8(m.clone()).map_err(|_| Fail(format!("{m:?} was published")))?;
        if i < ticks {
            check!(o.out.lines().any(|x| x.contains(&*l) && x.contains(&*t)), "the published {l} is not printed");
        }
        let l = L::from_str(&l).map_err(|e| Fail(format!("{l:?} was published: {e}")))?;
        let tree = match f.load_tree::<String>(secrets(&p), l) {
            Ok(t) => t,
            Err(e) => {
                // the first root is a leaf, these can not be loaded
                check!(i == 0, "root {i} can not be loaded: {e:#}");
                c.count("roots_that_are_leaves", 1);
                continue;
            }
        };
        let got = ok(f.collect(&tree), "collect")?.into_iter().collect::<Option<Vec<_>>>().ok_or_else(|| Fail("data is missing".into()))?;
        check!(got.len() == i + 1, "root {i} has {} elements", got.len());
        check!(got[..last.len()] == last[..], "root {i} does not continue the root before");
        check!(got.iter().enumerate().all(|(o, (k, v))| v == "xxx" && *k == Key::single(o as u64, o as u64, TagSet::single(tags(o as u64).into()))), "root {i} has other elements: {got:?}");
        last = got;
        if !refuse || i < ticks {
            arrived = arrived.max(last.len());
        }
        c.count("published_roots", 1);
    }
    for r in &mut receivers {
        let o = match r.wait(Duration::from_secs(100)) {
            Some(o) => o,
            None => fail!("recv-stream does not end with the subscription"),
        };
        let want = printed(&last);
        // (when the sender is killed, its last root may or may not have been passed on)
        let n = o.out.lines().count();
        check!(n <= want.len() && n + 1 >= arrived.min(ticks), "recv-stream prints {n} of {arrived} elements: {}", o.err.trim());
        same_lines(&o.out, &want[..n], "recv-stream")?;
        check!(o.code == Some(0), "recv-stream exits with {:?}: {}", o.code, o.err.trim());
        c.count("live_receivers", 1);
    }
    c.saw((ticks, joins, refuse));
    c.nontrivial = true;
    Ok(())
}
fn case(c: &mut Case) -> Res {
    node();
    let r = match c.rng.gen_range(0..100) {
        0..=54 => subscribe(c),
        55..=74 => publish(c),
        75..=96 => receive(c),
        _ => live(c),
    };
    r?;
    let wrong = node().lock().wrong.clone();
    check!(wrong.is_empty(), "unexpected requests: {wrong:?}");
    Ok(())
}
fn main() {
    for k in ["http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY"] {
        std::env::remove_var(k);
    }
    runner::main(Prop {
        quick_s: 35,
        min_cases: 200,
        require: &[("messages", 500), ("bodies_cut_elsewhere", 100), ("intact_subscriptions", 50), ("failed_subscriptions", 50), ("published", 100), ("refused", 20), ("received", 20), ("failed_receivers", 10), ("elements_received", 500), ("published_roots", 5), ("live_receivers", 2)],
        assumptions: &["the node sends each message of the topic once, in the order of publication"],
        ..Prop::new("C28", "scripted IPFS node on the loopback interface: subscriptions whose response is cut into pieces anywhere (one event each, all at once, within events, within characters), with pauses, three kinds of HTTP framing, and twelve flaws (lost connection, error states, partial and malformed events); publications with arbitrary topics and data, refused ones; the real recv-stream command with scripted roots, repeated and older roots, and messages that are no roots; the real send-stream command with receivers attached, killed or refused; received data is compared byte by byte and in order with what was sent; non-trivial: more than one message or element; distinct: scripts", case)
    });
}
