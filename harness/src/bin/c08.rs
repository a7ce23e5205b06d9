use banyan::{Secrets, TreeTypes};
use bmon::{gen, query::Q, runner, sess::*, store::*, types::*, walk, *};
use libipld::{cbor::DagCborCodec, codec::Codec, Cid, Ipld};
use rand::{Rng, RngCore};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Leaf,
    Branch,
}
const MAGIC: [u8; 4] = [0x28, 0xb5, 0x2f, 0xfd];

/// random bytes that appear in keys and values and must never appear in a stored block
fn marked(rng: &mut gen::Rn, s: &mut Sess, marks: &mut HashSet<[u8; 12]>, n: usize) -> Vec<El> {
    let mut els = vec![];
    for _ in 0..n {
        let mut k = s.gen.key(rng);
        let mut m = [0u8; 12];
        for b in m.iter_mut() {
            *b = rng.gen_range(b'!'..=b'~');
        }
        marks.insert(m);
        k.p = String::from_utf8(m.to_vec()).unwrap();
        // do not let links into this, they are public
        k.l = None;
        let mut v = [0u8; 12];
        rng.fill_bytes(&mut v);
        marks.insert(v);
        let mut b = vec![];
        let mut long = v.to_vec();
        long.resize(12 + rng.gen_range(0..40usize), 0x55);
        gen::bytes(&long, &mut b);
        if b.len() > s.gen.max_value {
            b = vec![0xf6];
        }
        els.push(El { k, v: Val(b) });
    }
    els
}
fn block(c: &mut Case, s: &Sess, data: &[u8], marks: &HashSet<[u8; 12]>) -> Res<Kind> {
    // canonical dag-cbor of [offset, links, blob]
    let env = walk::envelope(data)?;
    let again = DagCborCodec
        .encode(&Ipld::List(vec![
            Ipld::Integer(env.offset as i128),
            Ipld::List(env.links.iter().map(|l| Ipld::Link(*l)).collect()),
            Ipld::Bytes(env.blob.clone()),
        ]))
        .map_err(|e| Fail(format!("{e}")))?;
    check!(again == data, "the block is not the canonical encoding of its content");
    let mut kind = None;
    for (k, key) in [(Kind::Leaf, s.secrets.value_key()), (Kind::Branch, s.secrets.index_key())] {
        let plain = walk::xor(key, TT::NONCE, env.offset, &env.blob);
        if plain.starts_with(&MAGIC) {
            check!(kind.is_none(), "block can be decrypted with both keys");
            kind = Some(k);
            let content = zstd::stream::decode_all(&plain[..])
                .map_err(|e| Fail(format!("the {k:?} block does not decompress: {e}")))?;
            let items = cborx::split(&content).map_err(|e| Fail(format!("{k:?} content is not a CBOR sequence: {e}")))?;
            check!(!items.is_empty(), "{k:?} block without items");
            // exactly one frame, no trailing bytes
            let size = zstd::zstd_safe::find_frame_compressed_size(&plain).map_err(|_| Fail("bad zstd frame".into()))?;
            check!(size == plain.len(), "{} bytes after the zstd frame", plain.len() - size);
        }
        // other nonces and offsets do not work
        for (n, o) in [([0u8; 24], env.offset), (*TT::NONCE, env.offset + 1)] {
            check!(
                !walk::xor(key, &n, o, &env.blob).starts_with(&MAGIC),
                "block is readable with another nonce or offset"
            );
        }
    }
    for w in data.windows(12) {
        check!(
            !marks.contains(<&[u8; 12]>::try_from(w).unwrap()),
            "a block contains key or value content in the clear"
        );
    }
    c.count("bytes_scanned", data.len() as u64);
    kind.ok_or_else(|| Fail("block can not be decrypted with the value key or the index key at its offset".into()))
}
fn wrong_keys(c: &mut Case, s: &mut Sess, other: &Secrets) -> Res {
    let link = match s.b.link() {
        Some(l) if s.b.level() > 0 => l,
        _ => return Ok(()),
    };
    let root = s.walk()?.unwrap();
    let (i, v) = (*s.secrets.index_key(), *s.secrets.value_key());
    for (what, sec, ok_index) in [
        ("only the index key", Secrets::new(i, *other.value_key()), true),
        ("index key twice", Secrets::new(i, i), true),
        ("only the value key", Secrets::new(*other.index_key(), v), false),
        ("only the index key, no value key", Secrets::new(i, Default::default()), true),
        ("only the value key, no index key", Secrets::new(Default::default(), v), false),
        ("value key twice", Secrets::new(v, v), false),
        ("swapped keys", Secrets::new(v, i), false),
        ("other keys", other.clone(), false),
        ("default keys", Secrets::default(), false),
    ] {
        if !ok_index && *sec.index_key() == i {
            // not a wrong key
            continue;
        }
        let f = forest(&s.store, cache_size(&mut c.rng));
        if c.rng.gen_bool(0.4) {
            // everything was read with the right keys before, and may be cached
            let t: T = ok(f.load_tree(s.secrets.clone(), link), "load_tree")?;
            ok(f.collect(&t), "collect")?;
            c.count("wrong_keys_after_right_ones", 1);
        }
        let t: anyhow::Result<T> = f.load_tree(sec.clone(), link);
        let b: anyhow::Result<Builder> = f.load_stream_builder(sec.clone(), s.cfg.clone(), link);
        check!(t.is_ok() == ok_index && b.is_ok() == ok_index, "with {what}: load_tree ok={} load_stream_builder ok={}", t.is_ok(), b.is_ok());
        c.count("wrong_keys", 1);
        let t = match t {
            Ok(t) => t,
            Err(_) => continue,
        };
        if *sec.value_key() == v {
            continue;
        }
        // the index can be read, values can not
        check!(t.count() == s.n(), "with {what}: count {}", t.count());
        let nodes = drain(f.iter_index(&t, Q::All.build()), root.nodes().len(), "iter_index")?;
        check!(nodes.len() == root.nodes().len(), "with {what}: {} index nodes", nodes.len());
        for (o, m) in s.model.iter().enumerate().take(30) {
            match f.get(&t, o as u64) {
                Err(_) => check!(m.is_some(), "get({o}) of forgotten data failed"),
                Ok(x) => check!(x.is_none() && m.is_none(), "with {what}: get({o}) returned {x:?}"),
            }
        }
        let mut it = f.iter_filtered(&t, Q::All.build());
        if s.model.iter().any(|x| x.is_some()) {
            let first = it.next();
            check!(matches!(first, Some(Err(_))), "with {what}: iteration returned {first:?}");
            check!(f.collect(&t).is_err(), "with {what}: collect succeeded");
        }
    }
    Ok(())
}
fn case(c: &mut Case) -> Res {
    let mut s = Sess::new(&mut c.rng);
    let other = gen::secrets(&mut c.rng);
    let mut marks = HashSet::new();
    let mut mark = 0;
    let mut kinds: HashMap<Lnk, Kind> = HashMap::new();
    let ops = c.rng.gen_range(1..=12);
    for _ in 0..ops {
        let mut op = s.op(&mut c.rng, &Weights { repair: 0, ..Weights::ALL });
        match &mut op {
            Op::Extend(e) | Op::Unpacked(e) => *e = marked(&mut c.rng, &mut s, &mut marks, e.len()),
            Op::Push(e) => *e = marked(&mut c.rng, &mut s, &mut marks, 1).pop().unwrap(),
            _ => {}
        }
        if c.rng.gen_bool(0.05) && s.relocate(&mut c.rng)?.is_some() {
            kinds.insert(s.b.link().unwrap(), Kind::Branch);
            c.count("continued_far_away", 1);
        }
        if c.rng.gen_bool(0.1) {
            let n = c.rng.gen_range(0..5);
            s.store.with(|st| st.put_fault = Some((n, PutFault::StoredButError)));
        }
        let failing = s.store.with(|st| st.put_fault.is_some());
        let r = s.apply(&op);
        s.store.heal();
        c.desc = s.describe();
        match r {
            Err(e) if !failing => fail!("{} failed: {e:#}", op.name()),
            Ok(_) if matches!(op, Op::Retain(_)) => s.sync_absent()?,
            _ => {}
        }
        for link in s.store.puts_since(mark) {
            let data = s.store.raw(&link).unwrap();
            let k = block(c, &s, &data, &marks)?;
            kinds.insert(link, k);
            c.count(if k == Kind::Leaf { "leaf_blocks" } else { "branch_blocks" }, 1);
        }
        mark = s.store.mark();
    }
    // reachable blocks: the content is exactly the sequence of values / child indexes
    if let Some(root) = s.walk()? {
        for n in root.nodes() {
            let b = match n.block() {
                Some(b) => b,
                None => continue,
            };
            let want = if n.m.is_leaf() { Kind::Leaf } else { Kind::Branch };
            check!(kinds.get(&n.m.link.unwrap()) == Some(&want), "node at level {} is encrypted as {:?}", n.m.level, kinds.get(&n.m.link.unwrap()));
            if n.m.is_leaf() {
                let vals: Vec<u8> = s.model[n.start as usize..(n.start + n.m.count) as usize]
                    .iter()
                    .flatten()
                    .flat_map(|(_, v)| v.0.clone())
                    .collect();
                check!(vals == b.plain, "leaf at {} does not contain exactly its values", n.start);
            }
            let _: &Vec<Cid> = &b.env.links;
        }
        c.nontrivial = root.children.len() > 1;
        c.saw(root.shape());
        same(&root.elements(), &s.model, "decoded blocks")?;
    }
    wrong_keys(c, &mut s, &other)
}
fn main() {
    runner::main(Prop {
        require: &[("leaf_blocks", 10_000), ("branch_blocks", 5000), ("wrong_keys", 3000), ("bytes_scanned", 2_000_000), ("continued_far_away", 100)],
        ..Prop::new("C08", "every block that random histories (all operations, also failing ones) hand to the store is checked: canonical dag-cbor 3-list, exactly one of the two keys decrypts it at its offset with the configured nonce to exactly one zstd frame of a CBOR sequence, content equal to the values / decodable child indexes, none of the random markers in keys and values in the clear; some streams are continued at offsets of up to 2^62; trees are opened with seven wrong or partial key pairs; non-trivial: root with at least two children; distinct: tree shape", case)
    });
}
