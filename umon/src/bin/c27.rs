//! Runs the command line tool (the real binary) on SQLite databases, records its file
//! operations with a preloaded shim, and compares its output and the database with a model.
use banyan::{index::Index, query::{AllQuery, OffsetRangeQuery}, store::{BlockWriter, BranchCache, ReadOnlyStore}, Forest, Secrets, Transaction};
use banyan_utils::{create_chacha_key, tag_index::TagSet, tags::{Key, Sha256Digest, TT}};
use bmon::{check, fail, gen, runner, runner::*, sess::*};
use cid::Cid;
use parking_lot::Mutex;
use rand::{seq::SliceRandom, Rng};
use std::{
    collections::{BTreeMap, HashMap, HashSet},
    fs,
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
    str::FromStr,
    sync::Arc,
    time::{Duration, Instant},
};

type Els = Vec<Option<u64>>;
fn io<T>(r: std::io::Result<T>, what: &str) -> T {
    r.unwrap_or_else(|e| {
        // not a verdict about the code under test
        eprintln!("{what}: {e}");
        std::process::exit(2)
    })
}
fn target() -> PathBuf {
    PathBuf::from(std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into()))
}
fn tags(j: u64) -> &'static str {
    match (j % 3 == 0, j % 5 == 0) {
        (true, true) => "fizzbuzz",
        (true, false) => "fizz",
        (false, true) => "buzz",
        _ => "we.like.long.identifiers.because.they.seem.professional",
    }
}
fn key(j: u64) -> Key {
    Key::single(j, j, TagSet::single(tags(j).into()))
}
type Pass = (Option<String>, Option<String>);
struct Out {
    code: Option<i32>,
    out: String,
    err: String,
}
struct Running {
    child: Child,
    out: PathBuf,
    err: PathBuf,
    what: String,
}
#[derive(Clone)]
struct Db {
    dir: PathBuf,
    pass: Pass,
}
static RUNS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// the blocks of a database, read without the library
#[derive(Clone)]
struct Raw {
    con: Arc<Mutex<rusqlite::Connection>>,
    new: Arc<Mutex<HashMap<Sha256Digest, Vec<u8>>>>,
}
impl ReadOnlyStore<Sha256Digest> for Raw {
    fn get(&self, l: &Sha256Digest) -> anyhow::Result<Box<[u8]>> {
        if let Some(b) = self.new.lock().get(l) {
            return Ok(b.clone().into());
        }
        let b: Vec<u8> = self.con.lock().query_row("SELECT block FROM blocks WHERE block_id = (SELECT id FROM cids WHERE cid = ?)", [Cid::from(*l).to_bytes()], |r| r.get(0))?;
        anyhow::ensure!(Sha256Digest::new(&b) == *l, "the block {l} has other content");
        Ok(b.into())
    }
}
impl BlockWriter<Sha256Digest> for Raw {
    fn put(&mut self, b: Vec<u8>) -> anyhow::Result<Sha256Digest> {
        let l = Sha256Digest::new(&b);
        self.new.lock().insert(l, b);
        Ok(l)
    }
}
impl Db {
    fn file(&self) -> PathBuf {
        self.dir.join("db")
    }
    fn spawn(&self, args: &[String], env: &[(&str, String)]) -> Running {
        let mut c = Command::new(target().join("debug/banyan-cli"));
        c.arg("--storage").arg(self.file());
        if let Some(p) = &self.pass.0 {
            c.arg("--index-pass").arg(p);
        }
        if let Some(p) = &self.pass.1 {
            c.arg("--value-pass").arg(p);
        }
        c.args(args).env("RUST_BACKTRACE", "0").stdin(Stdio::null());
        for (k, v) in env {
            c.env(k, v);
        }
        if !env.is_empty() {
            c.env("LD_PRELOAD", target().join("shim.so"));
        }
        let id = RUNS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let (out, err) = (runner::scratch().join(format!("o{id}")), runner::scratch().join(format!("e{id}")));
        c.stdout(io(fs::File::create(&out), "scratch")).stderr(io(fs::File::create(&err), "scratch"));
        Running { child: io(c.spawn(), "spawn banyan-cli"), out, err, what: args.join(" ") }
    }
    fn run(&self, args: &[String]) -> Res<Out> {
        self.spawn(args, &[]).wait()
    }
    /// a command that has to succeed
    fn must(&self, args: &[String]) -> Res<String> {
        let o = self.run(args)?;
        check!(o.code == Some(0), "`{}` fails with {:?}: {}", args.join(" "), o.code, o.err.trim());
        Ok(o.out)
    }
    fn secrets(&self) -> Secrets {
        let k = |p: &Option<String>| p.clone().map(create_chacha_key).unwrap_or_default();
        Secrets::new(k(&self.pass.0), k(&self.pass.1))
    }
    fn forest(&self) -> Res<Forest<TT, Raw>> {
        let con = rusqlite::Connection::open(self.file()).map_err(|e| Fail(format!("the database can not be opened: {e:#}")))?;
        // (the checks of BlockStore::open would continue in the background)
        Ok(Forest::new(Raw { con: Arc::new(Mutex::new(con)), new: Default::default() }, BranchCache::default()))
    }
    /// all the elements of a tree, read by other means than the tool
    fn collect(&self, roots: &BTreeMap<String, Els>, when: &str) -> Res {
        let f = self.forest().map_err(|e| Fail(format!("{when}: {}", e.0)))?;
        for (root, want) in roots {
            let r = Sha256Digest::from_str(root).map_err(|e| Fail(format!("printed root {root}: {e}")))?;
            let t = ok(f.load_tree::<String>(self.secrets(), r), &format!("{when}: load {root}"))?;
            let got = ok(f.collect(&t), &format!("{when}: read {root}"))?;
            check!(got.len() == want.len(), "{when}: tree {root} has {} elements instead of {}", got.len(), want.len());
            for (i, (g, w)) in got.iter().zip(want).enumerate() {
                let w = w.map(|j| (key(j), j.to_string()));
                check!(*g == w, "{when}: tree {root}, offset {i}: {g:?} instead of {w:?}");
            }
        }
        Ok(())
    }
    /// elements by offset, as far as they are present
    fn survivors(&self, root: &str, when: &str) -> Res<Els> {
        let f = self.forest()?;
        let r = Sha256Digest::from_str(root).map_err(|e| Fail(format!("printed root {root}: {e}")))?;
        let t = ok(f.load_tree::<String>(self.secrets(), r), when)?;
        let got = ok(f.collect(&t), when)?;
        got.into_iter().enumerate().map(|(o, x)| x.map(|(k, v)| {
            let j = v.parse().map_err(|_| Fail(format!("{when}: offset {o} has the value {v:?}")))?;
            check!(k == key(j), "{when}: offset {o} has the key {k:?} and the value {v:?}");
            Ok(j)
        }).transpose()).collect()
    }
}
impl Running {
    fn wait(mut self) -> Res<Out> {
        let t = Instant::now();
        let mut nap = 1;
        let status = loop {
            if let Some(s) = io(self.child.try_wait(), "wait") {
                break s;
            }
            if t.elapsed() > Duration::from_secs(150) {
                let _ = self.child.kill();
                let _ = self.child.wait();
                fail!("`{}` does not end", self.what);
            }
            std::thread::sleep(Duration::from_millis(nap));
            nap = (nap + 1).min(10);
        };
        let read = |p: &Path| {
            let s = String::from_utf8_lossy(&io(fs::read(p), "scratch")).into_owned();
            let _ = fs::remove_file(p);
            s
        };
        Ok(Out { code: status.code(), out: read(&self.out), err: read(&self.err) })
    }
}
fn args(a: &[&str]) -> Vec<String> {
    a.iter().map(|x| x.to_string()).collect()
}

// ---------------------------------------------------------------- what the tool prints
#[derive(Debug, Clone)]
struct Line {
    depth: usize,
    kind: String,
    f: HashMap<String, String>,
}
impl Line {
    fn num(&self, k: &str) -> Res<u64> {
        self.f.get(k).and_then(|x| x.parse().ok()).ok_or_else(|| Fail(format!("no {k} in a {}", self.kind)))
    }
    fn link(&self) -> Option<&str> {
        self.f.get("link").map(|x| x.as_str()).filter(|x| !x.is_empty())
    }
}
fn node_line(l: &str) -> Option<Line> {
    let t = l.trim_start();
    let (kind, rest) = t.split_once('(')?;
    if !["Branch", "Leaf", "PurgedBranch", "PurgedLeaf"].contains(&kind) {
        return None;
    }
    let f = rest.trim_end_matches(')').split(", ").filter_map(|x| x.split_once('=')).map(|(k, v)| (k.into(), v.into())).collect();
    Some(Line { depth: (l.len() - t.len()) / 2, kind: kind.into(), f })
}
/// the dump of one tree at the start of the lines
fn dump(lines: &mut std::iter::Peekable<std::str::Lines>) -> Res<Vec<Line>> {
    let mut v: Vec<Line> = vec![];
    while let Some(x) = lines.peek().and_then(|l| node_line(l)) {
        if x.depth == 0 && !v.is_empty() {
            break;
        }
        v.push(x);
        lines.next();
    }
    check!(!v.is_empty(), "no tree was printed");
    // consistent in itself
    for (i, l) in v.iter().enumerate() {
        if l.kind != "Branch" {
            continue;
        }
        let sub: Vec<&Line> = v[i + 1..].iter().take_while(|x| x.depth > l.depth).collect();
        let kids: Vec<&&Line> = sub.iter().filter(|x| x.depth == l.depth + 1).collect();
        check!(kids.len() as u64 == l.num("children")?, "a branch with {} children is printed with {}", l.num("children")?, kids.len());
        let mut n = 0;
        for k in kids {
            n += k.num("count")?;
        }
        check!(n == l.num("count")?, "the children of a branch of {} have {n} elements", l.num("count")?);
    }
    Ok(v)
}
fn check_dump(v: &[Line], els: &Els) -> Res<String> {
    check!(v[0].num("count")? == els.len() as u64, "a tree of {} elements is printed with {}", els.len(), v[0].num("count")?);
    let mut o = 0;
    for (i, l) in v.iter().enumerate() {
        let inner = v.get(i + 1).map(|x| x.depth > l.depth).unwrap_or(false);
        if !inner {
            let n = l.num("count")? as usize;
            let there = els[o..o + n].iter().filter(|x| x.is_some()).count();
            let want = if l.kind.starts_with("Purged") { 0 } else { n };
            check!(there == want, "a {} of offsets {o}..{} is printed, {there} of its elements are there", l.kind, o + n);
            o += n;
        }
    }
    v[0].link().map(|x| x.to_string()).ok_or_else(|| Fail("no root is printed".into()))
}
/// `Dump { .. }` and everything that follows must have been consumed
fn end(lines: &mut std::iter::Peekable<std::str::Lines>) -> Res {
    if let Some(l) = lines.next() {
        fail!("unexpected output: {l:?}");
    }
    Ok(())
}
fn check_debug(lines: &mut std::iter::Peekable<std::str::Lines>, root: &str) -> Res {
    let l = lines.next().unwrap_or("");
    check!(l.contains(root), "the tree {root} is printed as {l:?}");
    Ok(())
}

// ---------------------------------------------------------------- crash points
#[derive(Debug)]
struct Rec {
    kind: u8,
    id: i32,
    off: u64,
    len: u64,
    data: Vec<u8>,
}
fn trace(p: &Path) -> Vec<Rec> {
    let b = fs::read(p).unwrap_or_default();
    let mut v = vec![];
    let mut i = 0;
    let u = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    while i + 29 <= b.len() {
        let n = u(i + 21) as usize;
        if i + 29 + n > b.len() {
            break;
        }
        v.push(Rec { kind: b[i], id: i32::from_le_bytes(b[i + 1..i + 5].try_into().unwrap()), off: u(i + 5), len: u(i + 13), data: b[i + 29..i + 29 + n].to_vec() });
        i += 29 + n;
    }
    v
}
#[derive(Clone, Default)]
struct File {
    now: Vec<u8>,
    /// content at the last sync, and what was done since
    synced: Vec<u8>,
    since: Vec<usize>,
}
#[derive(Default)]
struct Disk {
    files: Vec<File>,
    names: BTreeMap<String, usize>,
    ids: HashMap<i32, usize>,
}
fn apply(b: &mut Vec<u8>, r: &Rec, n: usize) {
    if r.kind == b't' {
        b.resize(r.len as usize, 0);
    } else {
        let at = r.off as usize;
        if b.len() < at + n {
            b.resize(at + n, 0);
        }
        b[at..at + n].copy_from_slice(&r.data[..n]);
    }
}
impl Disk {
    fn add(&mut self, name: &str, b: Vec<u8>) {
        self.names.insert(name.into(), self.files.len());
        self.files.push(File { now: b.clone(), synced: b, since: vec![] });
    }
    fn load(dir: &Path) -> Disk {
        let mut d = Disk::default();
        for e in io(fs::read_dir(dir), "scratch").flatten() {
            if !e.file_name().to_string_lossy().ends_with("-shm") {
                d.add(&e.path().to_string_lossy(), io(fs::read(e.path()), "scratch"));
            }
        }
        d
    }
    fn step(&mut self, i: usize, r: &Rec) {
        match r.kind {
            b'o' => {
                let name = String::from_utf8_lossy(&r.data).into_owned();
                if !self.names.contains_key(&name) {
                    self.add(&name, vec![]);
                }
                let f = self.names[&name];
                if r.off as i32 & libc::O_TRUNC != 0 {
                    self.files[f].now.clear();
                }
                self.ids.insert(r.id, f);
            }
            b'u' => {
                self.names.remove(&*String::from_utf8_lossy(&r.data));
            }
            b'w' | b't' => if let Some(f) = self.ids.get(&r.id) {
                let f = &mut self.files[*f];
                apply(&mut f.now, r, r.data.len());
                f.since.push(i);
            },
            b's' | b'd' => if let Some(f) = self.ids.get(&r.id) {
                let f = &mut self.files[*f];
                f.synced = f.now.clone();
                f.since.clear();
            },
            _ => {}
        }
    }
    /// what is left after the process has been killed (`power` = None) or after a power cut
    fn image(&self, from: &Path, to: &Path, tr: &[Rec], torn: Option<&Rec>, mut power: Option<&mut gen::Rn>) {
        let _ = fs::remove_dir_all(to);
        io(fs::create_dir_all(to), "scratch");
        for (name, f) in &self.names {
            let p = Path::new(name);
            if p == from || !p.starts_with(from) || name.ends_with("-shm") {
                continue;
            }
            let file = &self.files[*f];
            let mut b = match power.as_mut() {
                None => file.now.clone(),
                Some(rng) => {
                    let mut b = file.synced.clone();
                    let mode = rng.gen_range(0..4);
                    for (k, i) in file.since.iter().enumerate() {
                        let keep = match mode {
                            0 => false,
                            1 => rng.gen(),
                            2 => k + 1 == file.since.len(),
                            _ => rng.gen_bool(0.9),
                        };
                        if keep {
                            let n = tr[*i].data.len();
                            // disks write sectors
                            let n = if n > 512 && rng.gen_bool(0.1) { rng.gen_range(0..=n / 512) * 512 } else { n };
                            apply(&mut b, &tr[*i], n);
                        }
                    }
                    b
                }
            };
            if let Some(r) = torn {
                if self.ids.get(&r.id) == Some(f) && r.kind == b'w' {
                    apply(&mut b, r, r.data.len() / 2);
                }
            }
            io(fs::write(to.join(p.strip_prefix(from).unwrap()), b), "scratch");
        }
    }
}
fn copy_dir(from: &Path, to: &Path) {
    let _ = fs::remove_dir_all(to);
    io(fs::create_dir_all(to), "scratch");
    for e in io(fs::read_dir(from), "scratch").flatten() {
        io(fs::copy(e.path(), to.join(e.file_name())), "scratch");
    }
}

// ---------------------------------------------------------------- the workload
struct S<'a> {
    c: &'a mut Case,
    db: Db,
    roots: BTreeMap<String, Els>,
    /// roots with all their blocks
    shape: Vec<String>,
    unpacked: HashSet<String>,
}
impl S<'_> {
    fn add(&mut self, root: &str, els: Els) -> Res {
        if let Some(old) = self.roots.get(root) {
            check!(*old == els, "the root {root} was printed before, for other elements");
        }
        self.roots.insert(root.into(), els);
        Ok(())
    }
    fn build_args(&mut self) -> (Vec<String>, u64, u64, bool, Option<String>) {
        let rng = &mut self.c.rng;
        let unbalanced = rng.gen_bool(0.3);
        let batches = if unbalanced { rng.gen_range(1..25) } else { rng.gen_range(1..5) };
        let count: u64 = match rng.gen_range(0..6) {
            0 => rng.gen_range(1..4),
            1 | 2 => rng.gen_range(1..60),
            3 => rng.gen_range(900..1300),
            _ => rng.gen_range(50..400),
        };
        let count = if unbalanced { count.min(30) } else { count };
        let base = if rng.gen_bool(0.6) { self.roots.keys().collect::<Vec<_>>().choose(rng).map(|x| x.to_string()) } else { None };
        let mut a = args(&["build", "--count", &count.to_string()]);
        if batches > 1 || rng.gen() {
            a.extend(args(&["--batches", &batches.to_string()]));
        }
        if unbalanced {
            a.push("--unbalanced".into());
        }
        if let Some(b) = &base {
            a.extend(args(&["--base", b]));
        }
        (a, count, batches, unbalanced, base)
    }
    /// judges the output of a command that makes a new tree; returns the root
    fn built(&mut self, out: &str, count: u64, batches: u64, unbalanced: bool, base: &Option<String>) -> Res<String> {
        let mut els: Els = base.as_ref().map(|b| self.roots[b].clone()).unwrap_or_default();
        els.extend((0..count * batches).map(Some));
        let mut lines = out.lines().peekable();
        let l = lines.next().unwrap_or("");
        check!(l == format!("building a tree with {batches} batches of {count} values, unbalanced: {unbalanced}"), "build prints {l:?}");
        for i in (0..count * batches).step_by(1000) {
            let l = lines.next().unwrap_or("");
            check!(l == i.to_string(), "build prints {l:?} instead of {i}");
        }
        let d = dump(&mut lines)?;
        end(&mut lines)?;
        let root = check_dump(&d, &els)?;
        self.add(&root, els)?;
        if unbalanced || base.as_ref().map(|b| self.unpacked.contains(b)).unwrap_or(false) {
            self.unpacked.insert(root.clone());
        }
        self.c.count("trees_built", 1);
        self.c.count("elements_built", count * batches);
        Ok(root)
    }
    fn build(&mut self) -> Res {
        let (a, count, batches, unbalanced, base) = self.build_args();
        let out = self.db.must(&a)?;
        self.built(&out, count, batches, unbalanced, &base)?;
        self.shape.push(a.join(" "));
        Ok(())
    }
    fn pick(&mut self) -> Option<(String, Els)> {
        let k: Vec<&String> = self.roots.keys().collect();
        let r = k.choose(&mut self.c.rng)?.to_string();
        let e = self.roots[&r].clone();
        Some((r, e))
    }
    /// every kind of read of one tree
    fn read(&mut self, root: &str, els: &Els) -> Res {
        let present: Vec<(u64, u64)> = els.iter().enumerate().filter_map(|(o, j)| j.map(|j| (o as u64, j))).collect();
        let full = present.len() == els.len();
        let which = self.c.rng.gen_range(0..6);
        match which {
            0 => {
                let out = self.db.must(&args(&["dump-values", "--root", root]))?;
                let want: Vec<String> = present.iter().map(|(o, j)| format!("{:?} {:?} {:?}", o, key(*j), j.to_string())).collect();
                let got: Vec<&str> = out.lines().collect();
                check!(got.len() == want.len(), "dump-values prints {} elements instead of {}", got.len(), want.len());
                for (g, w) in got.iter().zip(&want) {
                    check!(g == w, "dump-values prints {g:?} instead of {w:?}");
                }
                self.c.count("dump_values", 1);
            }
            1 => {
                let out = self.db.must(&args(&["dump", "--root", root]))?;
                let mut lines = out.lines().peekable();
                let d = dump(&mut lines)?;
                end(&mut lines)?;
                let r = check_dump(&d, els)?;
                check!(r == root, "dump of {root} prints the root {r}");
                self.c.count("dumps", 1);
                // the values of some of its blocks
                let mut o = 0usize;
                let mut leaves = vec![];
                for (i, l) in d.iter().enumerate() {
                    if d.get(i + 1).map(|x| x.depth <= l.depth).unwrap_or(true) {
                        let n = l.num("count")? as usize;
                        if l.kind == "Leaf" {
                            leaves.push((l.link().unwrap_or("").to_string(), o, n));
                        }
                        o += n;
                    }
                }
                for _ in 0..2 {
                    if let Some((link, o, n)) = leaves.choose(&mut self.c.rng) {
                        let cbor = self.c.rng.gen();
                        let mut a = args(&["dump-block", "--hash", link]);
                        if cbor {
                            a.push("--cbor".into());
                        }
                        let out = self.db.must(&a)?;
                        let want = std::iter::once("ZstdDagCborSeq".to_string()).chain(els[*o..*o + *n].iter().map(|j| format!("{:?}", j.unwrap_or(0).to_string())));
                        let got: Vec<&str> = out.lines().collect();
                        let want: Vec<String> = want.collect();
                        check!(got == want, "dump-block of the leaf {o}..{} prints {got:?}", o + n);
                        self.c.count("dump_blocks", 1);
                    }
                }
            }
            2 => {
                let out = self.db.must(&args(&["stream", "--root", root]))?;
                self.every_thousandth(&out, &present)?;
                self.c.count("streams", 1);
            }
            3 => {
                let mut t: Vec<&str> = vec!["fizz", "buzz", "fizzbuzz", "we.like.long.identifiers.because.they.seem.professional", "other", "xyz"];
                t.shuffle(&mut self.c.rng);
                let n = self.c.rng.gen_range(1..4);
                let t = &t[..n];
                let mut a = args(&["filter", "--root", root]);
                for x in t {
                    a.extend(args(&["--tag", x]));
                }
                let out = self.db.must(&a)?;
                let mut lines = out.lines().peekable();
                let d = dump(&mut lines)?;
                check!(check_dump(&d, els)? == root, "filter prints another root");
                let m: Vec<(u64, u64)> = present.iter().filter(|(_, j)| t.contains(&tags(*j))).copied().collect();
                let rest: Vec<&str> = lines.collect();
                self.every_thousandth(&rest.join("\n"), &m)?;
                self.c.count("filters", 1);
            }
            4 => {
                let out = self.db.must(&args(&["graph", "--root", root]))?;
                let edges = out.lines().filter(|l| l.contains("->")).count();
                let mut nodes = 0;
                let mut items = 0u64;
                for l in out.lines().filter(|l| l.contains("[label") && !l.contains("->")) {
                    nodes += 1;
                    if l.contains("circle") {
                        let n = l.split('"').nth(1).and_then(|x| x.parse::<u64>().ok());
                        items += n.ok_or_else(|| Fail(format!("no number in {l:?}")))?;
                    }
                }
                check!(nodes == edges + 1, "the graph has {nodes} nodes and {edges} edges");
                check!(items <= els.len() as u64 && (!full || items == els.len() as u64), "the leaves of the graph have {items} items, the tree {}", els.len());
                let out = self.db.must(&args(&["dump", "--root", root]))?;
                check!(out.lines().count() == nodes, "the graph has {nodes} nodes, the dump {}", out.lines().count());
                self.c.count("graphs", 1);
            }
            _ => {
                // errors
                let mut db = self.db.clone();
                let cmd = *["dump", "dump-values", "stream", "graph", "forget", "pack", "repair", "build", "filter"].choose(&mut self.c.rng).unwrap();
                let mut a = if cmd == "build" { args(&["build", "--count", "1", "--base"]) } else { args(&[cmd, "--root"]) };
                let what;
                if self.c.rng.gen() && cmd != "repair" {
                    let other = Some(format!("other-{}", self.c.rng.gen::<u64>()));
                    // only what reads the leaves depends on the second password
                    if self.c.rng.gen() && (cmd == "dump-values" || cmd == "stream") && !present.is_empty() {
                        db.pass.1 = other;
                        what = "a wrong value password";
                    } else {
                        db.pass.0 = other;
                        what = "a wrong index password";
                    }
                    a.push(root.into());
                } else {
                    a.push(Sha256Digest::new(&self.c.rng.gen::<[u8; 16]>()).to_string());
                    what = "an unknown root";
                }
                if cmd == "forget" {
                    a.extend(args(&["--before", "3"]));
                }
                if cmd == "filter" {
                    a.extend(args(&["--tag", "fizz"]));
                }
                let o = db.run(&a)?;
                // a tree of a single leaf is loaded without reading the leaf
                let single = what != "an unknown root" && cmd == "build";
                check!(o.code != Some(0) || single, "`{cmd}` succeeds with {what}");
                check!(!o.out.contains("TimeData"), "`{cmd}` prints elements with {what}");
                check!(o.code.is_some(), "`{cmd}` crashes with {what}");
                self.c.count("refusals", 1);
            }
        }
        Ok(())
    }
    fn every_thousandth(&mut self, out: &str, els: &[(u64, u64)]) -> Res {
        let want: Vec<String> = els.iter().step_by(1000).map(|(o, j)| format!("{:?}", (o, key(*j), j.to_string()))).collect();
        let got: Vec<&str> = out.lines().collect();
        check!(got == want, "{got:?} is printed instead of {want:?}");
        self.c.count("printed_elements", want.len() as u64);
        Ok(())
    }
    fn pack(&mut self, root: &str, els: &Els) -> Res {
        let out = self.db.must(&args(&["pack", "--root", root]))?;
        self.packed(&out, root, els)?;
        self.shape.push("pack".into());
        Ok(())
    }
    fn packed(&mut self, out: &str, root: &str, els: &Els) -> Res {
        let mut lines = out.lines().peekable();
        let d = dump(&mut lines)?;
        check!(check_dump(&d, els)? == root, "pack prints another root as the old one");
        let d = dump(&mut lines)?;
        let new = check_dump(&d, els)?;
        check_debug(&mut lines, &new)?;
        end(&mut lines)?;
        self.add(&new, els.clone())?;
        self.c.count("packs", 1);
        Ok(())
    }
    fn forget(&mut self, root: &str, els: &Els) -> Res {
        let n = els.len() as u64;
        let before = match self.c.rng.gen_range(0..5) {
            0 => 0,
            1 => n,
            2 => n + 1,
            _ => self.c.rng.gen_range(0..=n),
        };
        let out = self.db.must(&args(&["forget", "--root", root, "--before", &before.to_string()]))?;
        let mut lines = out.lines().peekable();
        let d = dump(&mut lines)?;
        let new = match d[0].link() {
            Some(x) => x.to_string(),
            None => {
                check!(els.iter().skip(before as usize).all(|x| x.is_none()), "forget --before {before} has removed everything");
                return Ok(());
            }
        };
        let left = self.db.survivors(&new, "after forget")?;
        check!(left.len() == els.len(), "forget changes the number of elements from {} to {}", els.len(), left.len());
        for o in 0..els.len() {
            check!(left[o] == els[o] || (o < before as usize && left[o].is_none()), "after forget --before {before}, offset {o} is {:?} instead of {:?}", left[o], els[o]);
        }
        check_dump(&d, &left)?;
        check_debug(&mut lines, &new)?;
        end(&mut lines)?;
        // it must forget what the library forgets
        let lib = {
            let f = self.db.forest()?;
            let mut txn = Transaction::new(f.clone(), f.store().clone());
            let r = Sha256Digest::from_str(root).unwrap();
            let mut b = ok(txn.load_stream_builder::<String>(self.db.secrets(), banyan::Config::debug(), r), "load")?;
            ok(txn.retain(&mut b, &OffsetRangeQuery::from(before..)), "retain")?;
            ok(txn.collect(&b.snapshot()), "collect")?
        };
        let gone = left.iter().filter(|x| x.is_none()).count();
        check!(gone == lib.iter().filter(|x| x.is_none()).count(), "forget --before {before} leaves {} elements, the library {}", left.len() - gone, lib.iter().flatten().count());
        let gone = gone - els.iter().filter(|x| x.is_none()).count();
        self.c.count("elements_forgotten", gone as u64);
        self.add(&new, left)?;
        self.c.count("forgets", 1);
        self.shape.push(format!("forget {before}"));
        Ok(())
    }
    /// a modifying command with all its file operations recorded, and crashed at many points
    fn crash(&mut self) -> Res {
        let dir = self.db.dir.clone();
        let work = dir.with_extension("crash");
        let saved = dir.with_extension("saved");
        copy_dir(&dir, &saved);
        let tracefile = dir.with_extension("trace");
        let kind = self.c.rng.gen_range(0..4);
        let before = self.roots.clone();
        let (a, els, news): (Vec<String>, Els, Option<(u64, u64, bool, Option<String>)>) = match (kind, self.pick()) {
            (0, Some((r, e))) => (args(&["pack", "--root", &r]), e, None),
            (1, Some((r, e))) => (args(&["dump-values", "--root", &r]), e, None),
            _ => {
                let (a, n, b, u, base) = self.build_args();
                (a, vec![], Some((n, b, u, base)))
            }
        };
        let env = [("SHIM_DIR", dir.to_string_lossy().into_owned()), ("SHIM_TRACE", tracefile.to_string_lossy().into_owned())];
        let o = self.db.spawn(&a, &env).wait()?;
        check!(o.code == Some(0), "`{}` fails with {:?}: {}", a.join(" "), o.code, o.err.trim());
        let mut new: Option<String> = None;
        match &news {
            Some((n, b, u, base)) => new = Some(self.built(&o.out, *n, *b, *u, base)?),
            None if a[0] == "pack" => {
                let root = a[2].clone();
                self.packed(&o.out, &root, &els)?;
                // the root of the second dump
                new = o.out.lines().filter_map(node_line).filter(|l| l.depth == 0).nth(1).and_then(|l| l.link().map(|x| x.into()));
            }
            None => {}
        }
        let tr = trace(&tracefile);
        let _ = fs::remove_file(&tracefile);
        let ops: Vec<usize> = (0..tr.len()).filter(|i| tr[*i].kind != b'p').collect();
        check!(o.out.is_empty() || tr.iter().any(|r| r.kind == b'p'), "the shim has recorded nothing");
        self.c.count("file_operations", ops.len() as u64);
        self.c.max("file_operations", ops.len() as u64);
        // replaying everything must give the files that are really there
        let mut disk = Disk::load(&saved);
        disk.names = disk.names.into_iter().map(|(k, v)| (dir.join(Path::new(&k).file_name().unwrap()).to_string_lossy().into_owned(), v)).collect();
        let mut points: Vec<usize> = vec![];
        for _ in 0..if self.c.thorough { 30 } else { 10 } {
            points.push(self.c.rng.gen_range(0..=tr.len()));
        }
        // and right after a root was printed
        for (i, r) in tr.iter().enumerate() {
            if r.kind == b'p' && new.as_ref().map(|n| String::from_utf8_lossy(&r.data).contains(&**n)).unwrap_or(false) {
                points.push(i + 1);
            }
        }
        points.sort();
        points.dedup();
        let crashed = Db { dir: work.clone(), pass: self.db.pass.clone() };
        let mut printed = String::new();
        let mut rng = { use rand::SeedableRng; gen::Rn::from_rng(&mut self.c.rng).unwrap() };
        for i in 0..=tr.len() {
            if points.binary_search(&i).is_ok() {
                let power = rng.gen_bool(0.5);
                let torn = if i < tr.len() && !power && rng.gen_bool(0.3) { Some(&tr[i]) } else { None };
                disk.image(&dir, &work, &tr, torn, if power { Some(&mut rng) } else { None });
                let mut roots = before.clone();
                if let Some(n) = &new {
                    if printed.contains(&**n) {
                        roots.insert(n.clone(), self.roots[n].clone());
                        self.c.count("crash_points_with_new_root", 1);
                    }
                }
                // all of them are slow for many roots
                let mut some: Vec<String> = roots.keys().cloned().collect();
                some.shuffle(&mut rng);
                some.truncate(3);
                roots.retain(|k, _| some.contains(k) || Some(k) == new.as_ref());
                let when = format!("{} after {i} of {} operations of `{}`", if power { "power cut" } else { "crash" }, tr.len(), a.join(" "));
                crashed.collect(&roots, &when)?;
                self.c.count("crash_points", 1);
                self.c.count("roots_read_after_crash", roots.len() as u64);
                if power {
                    self.c.count("power_cuts", 1);
                }
                if rng.gen_bool(0.15) {
                    // life goes on
                    if let Some((root, els)) = roots.iter().next() {
                        let out = crashed.must(&args(&["dump-values", "--root", root])).map_err(|e| Fail(format!("{when}: {}", e.0)))?;
                        check!(out.lines().count() == els.iter().flatten().count(), "{when}: dump-values prints {} elements", out.lines().count());
                    }
                    let out = crashed.must(&args(&["build", "--count", "3"])).map_err(|e| Fail(format!("{when}: {}", e.0)))?;
                    check!(out.contains("count=3"), "{when}: build prints {out:?}");
                    self.c.count("continued_after_crash", 1);
                }
            }
            if let Some(r) = tr.get(i) {
                if r.kind == b'p' {
                    printed += &String::from_utf8_lossy(&r.data);
                } else {
                    disk.step(i, r);
                }
            }
        }
        // (the last operation of a thread in the background may be missing in the record)
        let explained = ["db", "db-wal"].iter().all(|f| {
            let p = dir.join(f);
            let want = disk.names.get(&*p.to_string_lossy()).map(|i| disk.files[*i].now.clone());
            fs::read(&p).ok() == want
        });
        self.c.count(if explained { "complete_records" } else { "incomplete_records" }, 1);
        // a real kill
        for _ in 0..2 {
            if ops.is_empty() {
                break;
            }
            copy_dir(&saved, &work);
            let k = self.c.rng.gen_range(1..=ops.len() + 5);
            let mut env = vec![("SHIM_DIR", work.to_string_lossy().into_owned()), ("SHIM_KILL_AT", k.to_string())];
            if self.c.rng.gen() {
                env.push(("SHIM_TORN", "1".into()));
            }
            let o = crashed.spawn(&a, &env).wait()?;
            check!(o.code.is_none() || o.code == Some(0), "`{}` fails with {:?}: {}", a.join(" "), o.code, o.err.trim());
            let mut roots = before.clone();
            if let Some(n) = &new {
                if o.out.contains(&**n) {
                    roots.insert(n.clone(), self.roots[n].clone());
                }
            }
            let mut some: Vec<String> = roots.keys().cloned().collect();
            some.shuffle(&mut rng);
            some.truncate(3);
            roots.retain(|k, _| some.contains(k) || Some(k) == new.as_ref());
            crashed.collect(&roots, &format!("killed before operation {k} of `{}`", a.join(" ")))?;
            if o.code.is_none() {
                self.c.count("killed", 1);
            }
        }
        let _ = fs::remove_dir_all(&work);
        let _ = fs::remove_dir_all(&saved);
        self.shape.push(format!("crash {}", a.join(" ")));
        Ok(())
    }
    /// two processes on the same database
    fn concurrent(&mut self) -> Res {
        let (a, n, b, u, base) = self.build_args();
        let w = self.db.spawn(&a, &[]);
        let mut readers = vec![];
        for _ in 0..self.c.rng.gen_range(1..3) {
            if let Some((root, els)) = self.pick() {
                std::thread::sleep(Duration::from_millis(self.c.rng.gen_range(0..30)));
                readers.push((self.db.spawn(&args(&["dump-values", "--root", &root]), &[]), els));
            }
        }
        let busy = |c: &mut Case, o: &Out| {
            let b = o.code != Some(0) && (o.err.contains("lock") || o.err.contains("busy"));
            if b {
                c.count("busy", 1);
            }
            b
        };
        for (r, els) in readers {
            let o = r.wait()?;
            if !busy(self.c, &o) {
                check!(o.code == Some(0), "dump-values fails while another process is building: {}", o.err.trim());
                let want: Vec<String> = els.iter().enumerate().filter_map(|(o, j)| j.map(|j| format!("{:?} {:?} {:?}", o as u64, key(j), j.to_string()))).collect();
                check!(o.out.lines().collect::<Vec<_>>() == want, "dump-values prints something else while another process is building");
                self.c.count("concurrent_reads", 1);
            }
        }
        let o = w.wait()?;
        if !busy(self.c, &o) {
            check!(o.code == Some(0), "`{}` fails while others are reading: {}", a.join(" "), o.err.trim());
            self.built(&o.out, n, b, u, &base)?;
            self.c.count("concurrent_writes", 1);
        }
        self.shape.push("concurrent".into());
        Ok(())
    }
    /// blocks are lost: errors are reported, repair brings back the rest
    fn damage(&mut self) -> Res {
        let (root, els) = match self.pick() {
            Some(x) => x,
            None => return Ok(()),
        };
        // (link, range, is leaf) of every block
        let mut blocks: Vec<(Cid, usize, usize, bool)> = vec![];
        {
            let f = self.db.forest()?;
            let r = Sha256Digest::from_str(&root).unwrap();
            let t = ok(f.load_tree::<String>(self.db.secrets(), r), "load_tree")?;
            let mut o = 0usize;
            for i in f.iter_index(&t, AllQuery) {
                let i = ok(i, "iter_index")?;
                let (l, n, leaf) = match &i {
                    Index::Branch(b) => (b.link, b.count as usize, false),
                    Index::Leaf(l) => (l.link, l.keys().count(), true),
                };
                if let Some(l) = l {
                    blocks.push((Cid::from(l), o, o + n, leaf));
                }
                if leaf || l.is_none() {
                    o += n;
                }
            }
        }
        // (not the root)
        blocks.remove(0);
        if blocks.is_empty() {
            return Ok(());
        }
        let k = self.c.rng.gen_range(1..=3);
        let lost: Vec<_> = blocks.choose_multiple(&mut self.c.rng, k).cloned().collect();
        {
            let con = rusqlite::Connection::open(self.db.file()).map_err(|e| Fail(e.to_string()))?;
            for (cid, ..) in &lost {
                con.execute("DELETE FROM blocks WHERE block_id = (SELECT id FROM cids WHERE cid = ?)", [cid.to_bytes()]).map_err(|e| Fail(format!("sql: {e}")))?;
            }
        }
        let mut left = els.clone();
        for (_, a, b, _) in &lost {
            left[*a..*b].iter_mut().for_each(|x| *x = None);
        }
        // readers must not pretend that all is well
        for cmd in ["dump-values", "stream", "filter"] {
            let mut a = args(&[cmd, "--root", &root]);
            if cmd == "filter" {
                for t in ["fizz", "buzz", "fizzbuzz", "we.like.long.identifiers.because.they.seem.professional"] {
                    a.extend(args(&["--tag", t]));
                }
            }
            let o = self.db.run(&a)?;
            check!(o.code != Some(0), "`{cmd}` succeeds although {} blocks are lost", lost.len());
            check!(o.code.is_some(), "`{cmd}` crashes");
            self.c.count("reported_losses", 1);
            if cmd == "dump-values" {
                // what it prints before is correct
                let first = lost.iter().map(|x| x.1).min().unwrap();
                let want: Vec<String> = els[..first].iter().enumerate().filter_map(|(o, j)| j.map(|j| format!("{:?} {:?} {:?}", o as u64, key(j), j.to_string()))).collect();
                check!(o.out.lines().collect::<Vec<_>>() == want, "dump-values prints {} elements before the loss at offset {first}", o.out.lines().count());
            }
        }
        let out = self.db.must(&args(&["repair", "--root", &root]))?;
        let mut lines = out.lines().peekable();
        let d = dump(&mut lines)?;
        let new = check_dump(&d, &left)?;
        check_debug(&mut lines, &new)?;
        end(&mut lines)?;
        let got = self.db.survivors(&new, "after repair")?;
        check!(got == left, "after repair, {} of {} elements are left instead of {}", got.iter().flatten().count(), els.len(), left.iter().flatten().count());
        self.c.count("repairs", 1);
        self.c.count("lost_blocks", lost.len() as u64);
        self.roots.clear();
        self.add(&new, left.clone())?;
        for _ in 0..3 {
            self.read(&new.clone(), &left)?;
        }
        self.shape.push(format!("damage {k}"));
        Ok(())
    }
    fn bench(&mut self) -> Res {
        let n: u64 = self.c.rng.gen_range(0..500);
        let out = self.db.must(&args(&["bench", "--count", &n.to_string()]))?;
        let l: Vec<&str> = out.lines().collect();
        let fizz = (0..n).filter(|j| tags(*j) == "fizz").count().to_string();
        let rare = (0..n).filter(|j| tags(*j) == "fizzbuzz" && *j <= n / 10).count().to_string();
        let rare2 = (0..n).filter(|j| tags(*j) == "fizzbuzz" && *j < n / 10).count().to_string();
        check!(l.len() == 6 && l[0] == fizz && (l[1] == rare || l[1] == rare2), "bench of {n} prints {l:?}");
        self.c.count("benches", 1);
        Ok(())
    }
}
fn workload(s: &mut S) -> Res {
    let steps = s.c.rng.gen_range(3..9);
    for i in 0..steps {
        match s.c.rng.gen_range(0..20) {
            _ if i == 0 => s.build()?,
            0..=3 => s.build()?,
            4..=8 => if let Some((r, e)) = s.pick() {
                s.read(&r, &e)?
            },
            9 | 10 => if let Some((r, e)) = s.pick() {
                s.pack(&r, &e)?
            },
            11 | 12 => if let Some((r, e)) = s.pick() {
                s.forget(&r, &e)?
            },
            13..=16 => s.crash()?,
            17 | 18 => s.concurrent()?,
            _ => s.bench()?,
        }
    }
    // nothing of all this has damaged anything
    let roots = s.roots.clone();
    s.db.collect(&roots, "at the end")?;
    s.c.count("roots_read_at_the_end", roots.len() as u64);
    if s.c.rng.gen_bool(0.5) {
        s.damage()?;
    }
    Ok(())
}
fn case(c: &mut Case) -> Res {
    let dir = runner::scratch().join(format!("cli{}", c.index));
    io(fs::create_dir_all(&dir), "scratch");
    let word = |c: &mut Case| match c.rng.gen_range(0..4) {
        0 => Some(format!("secret {}", c.rng.gen::<u32>())),
        1 => Some("0123456789abcdef0123456789abcdef-and-more".into()),
        _ => None,
    };
    let pass = (word(c), word(c));
    let db = Db { dir: dir.clone(), pass };
    let mut s = S { c, db, roots: BTreeMap::new(), shape: vec![], unpacked: HashSet::new() };
    let r = workload(&mut s);
    let (shape, db) = (s.shape, s.db);
    c.desc = format!("passwords {:?}; {}", db.pass, shape.join("; "));
    c.saw(&shape);
    c.nontrivial = shape.len() > 1;
    for x in ["", "crash", "saved"] {
        let _ = fs::remove_dir_all(if x.is_empty() { dir.clone() } else { dir.with_extension(x) });
    }
    r
}
fn main() {
    runner::main(Prop {
        level: "fault_enumeration",
        quick_s: 35,
        min_cases: 60,
        require: &[("trees_built", 200), ("dump_values", 20), ("dumps", 20), ("dump_blocks", 20), ("streams", 20), ("filters", 20), ("graphs", 15), ("refusals", 15), ("packs", 40), ("forgets", 20), ("elements_forgotten", 100), ("repairs", 15), ("reported_losses", 50), ("crash_points", 500), ("power_cuts", 200), ("crash_points_with_new_root", 50), ("killed", 50), ("complete_records", 50), ("concurrent_reads", 20), ("concurrent_writes", 20)],
        assumptions: &["after a power cut, the content of a file is what was written until the last fsync plus any part of what was written since; created and deleted files stay so", "the process can be killed between two file operations or in the middle of a write"],
        ..Prop::new("C27", "the real banyan-cli binary on a SQLite file: random sequences of build (balanced or not, on a new or an earlier tree), pack, forget, repair, dump, dump-values, dump-block, stream, filter, graph, bench, with and without passwords; every line of output is compared with a model; modifying commands run under a shim that records every write, truncate, fsync, unlink and printed line, and the database is rebuilt as it would be after a kill or a power cut at sampled points, and read completely; real kills; a concurrent reader; wrong passwords, unknown roots and lost blocks must be reported; non-trivial: several commands; distinct: sequences of commands", case)
    });
}
