use banyan_utils::tag_index::{map_to_index_set, Dnf, Expression, Tag, TagIndex, TagSet};
use bmon::{check, gen, runner, runner::*, sess::*};
use libipld::{cbor::DagCborCodec, codec::Codec};
use rand::{seq::SliceRandom, Rng, RngCore};
use std::collections::BTreeSet;

const ODD: &[&str] = &["", "'", "''", "a b", " & ", "( 'x' )", "|", "ä→", "\u{10ffff}", "\0", "\n", "exactly 22 bytes long!!", "a tag that is too long for the inline representation", "a", "A", "aa"];
fn alphabet(rng: &mut gen::Rn) -> Vec<Tag> {
    let n = rng.gen_range(1..=8);
    let mut s = BTreeSet::new();
    while s.len() < n {
        let t: String = if rng.gen_bool(0.4) {
            ODD.choose(rng).unwrap().to_string()
        } else {
            (0..rng.gen_range(1..4)).map(|_| *['a', 'b', 'c', '\''].choose(rng).unwrap()).collect()
        };
        s.insert(t);
    }
    let mut v: Vec<Tag> = s.into_iter().map(Tag::from).collect();
    v.shuffle(rng);
    v
}
/// an expression without empty conjunctions and disjunctions, with at most `budget` literals
fn expr(rng: &mut gen::Rn, ab: &[Tag], budget: usize, how: u32) -> Expression {
    if budget <= 1 || rng.gen_bool(0.15) {
        return Expression::Literal(ab.choose(rng).unwrap().clone());
    }
    let n = if rng.gen_bool(0.15) { 1 } else { rng.gen_range(2..=4.min(budget)) };
    let v: Vec<Expression> = (0..n).map(|_| expr(rng, ab, budget / n.max(1), how)).collect();
    let or = rng.gen();
    match how {
        // raw constructors
        0 => if or { Expression::Or(v) } else { Expression::And(v) },
        // flattening constructors
        1 => if or { Expression::or(v) } else { Expression::and(v) },
        // operators
        2 => v.into_iter().reduce(|a, b| if or { a | b } else { a & b }).unwrap(),
        _ => match rng.gen_range(0..3) {
            0 => if or { Expression::Or(v) } else { Expression::And(v) },
            1 => if or { Expression::or(v) } else { Expression::and(v) },
            _ => v.into_iter().reduce(|a, b| if or { a | b } else { a & b }).unwrap(),
        },
    }
}
fn bit(ab: &[Tag], t: &str) -> Option<u32> {
    ab.iter().position(|x| x == t).map(|i| 1 << i)
}
/// does a set of tags (as bits) satisfy the expression
fn eval(e: &Expression, ab: &[Tag], set: u32) -> bool {
    match e {
        Expression::Literal(t) => bit(ab, t).map(|b| set & b != 0).unwrap_or(false),
        Expression::And(v) => v.iter().all(|x| eval(x, ab, set)),
        Expression::Or(v) => v.iter().any(|x| eval(x, ab, set)),
    }
}
fn bits(ab: &[Tag], s: &TagSet) -> Res<u32> {
    let mut r = 0;
    for t in s.iter() {
        r |= bit(ab, t).ok_or_else(|| Fail(format!("unknown tag {t:?}")))?
    }
    Ok(r)
}
fn dnf_bits(ab: &[Tag], d: &Dnf) -> Res<Vec<u32>> {
    let mut v: Vec<u32> = d.0.iter().map(|s| bits(ab, s)).collect::<Res<_>>()?;
    v.sort();
    Ok(v)
}
/// the minimal sets that satisfy a (monotone) expression; there is only one such list
fn minimal(e: &Expression, ab: &[Tag]) -> Vec<u32> {
    let all: Vec<u32> = (0..1u32 << ab.len()).filter(|s| eval(e, ab, *s)).collect();
    let mut v: Vec<u32> = all.iter().copied().filter(|s| (0..ab.len()).all(|i| s & (1 << i) == 0 || !eval(e, ab, s & !(1 << i)))).collect();
    v.sort();
    v
}
/// how many conjunctions the naive normal form has
fn cost(e: &Expression) -> f64 {
    match e {
        Expression::Literal(_) => 1.0,
        Expression::And(v) => v.iter().map(cost).product(),
        Expression::Or(v) => v.iter().map(cost).sum(),
    }
}
struct Parser<'a>(std::iter::Peekable<std::str::Chars<'a>>);
impl<'a> Parser<'a> {
    fn ws(&mut self) {
        while self.0.peek() == Some(&' ') {
            self.0.next();
        }
    }
    fn or(&mut self) -> Option<Expression> {
        let mut v = vec![self.and()?];
        loop {
            self.ws();
            if self.0.peek() != Some(&'|') { break }
            self.0.next();
            v.push(self.and()?)
        }
        Some(Expression::Or(v))
    }
    fn and(&mut self) -> Option<Expression> {
        let mut v = vec![self.atom()?];
        loop {
            self.ws();
            if self.0.peek() != Some(&'&') { break }
            self.0.next();
            v.push(self.atom()?)
        }
        Some(Expression::And(v))
    }
    fn atom(&mut self) -> Option<Expression> {
        self.ws();
        match self.0.next()? {
            '(' => {
                let e = self.or()?;
                self.ws();
                (self.0.next()? == ')').then_some(e)
            }
            '\'' => {
                let mut s = String::new();
                loop {
                    let c = self.0.next()?;
                    if c == '\'' {
                        if self.0.peek() != Some(&'\'') { break }
                        self.0.next();
                    }
                    s.push(c)
                }
                Some(Expression::Literal(s.into()))
            }
            _ => None,
        }
    }
}
fn parse(s: &str) -> Option<Expression> {
    let mut p = Parser(s.chars().peekable());
    let e = p.or()?;
    p.ws();
    p.0.next().is_none().then_some(e)
}
fn same(what: &str, a: &Expression, b: &Expression, ab: &[Tag]) -> Res {
    for s in 0..1u32 << ab.len() {
        check!(eval(a, ab, s) == eval(b, ab, s), "{what}: {b:?} differs from {a:?} for the tags {:?}", set_of(ab, s));
    }
    Ok(())
}
fn set_of(ab: &[Tag], s: u32) -> TagSet {
    ab.iter().enumerate().filter(|(i, _)| s & (1 << i) != 0).map(|(_, t)| t.clone()).collect()
}
fn is_dnf_of(what: &str, d: &Dnf, e: &Expression, ab: &[Tag]) -> Res {
    let got = dnf_bits(ab, d)?;
    for a in &got {
        check!(*a != 0, "{what}: empty conjunction in {d:?}");
        for b in &got {
            check!(a == b || a & b != *a, "{what}: not minimal: {:?} contains {:?}", set_of(ab, *b), set_of(ab, *a));
        }
    }
    let want = minimal(e, ab);
    check!(got == want, "{what}: {d:?} is not the normal form of {e:?}");
    Ok(())
}
fn expressions(c: &mut Case, ab: &[Tag]) -> Res<Vec<(Expression, Dnf)>> {
    let mut out: Vec<(Expression, Dnf)> = vec![];
    for _ in 0..20 {
        let (budget, how) = (c.rng.gen_range(1..30), c.rng.gen_range(0..4));
        let e = expr(&mut c.rng, ab, budget, how);
        if cost(&e) > 3000.0 { continue }
        c.desc = format!("{e:?}");
        let d = e.clone().dnf();
        is_dnf_of("dnf", &d, &e, ab)?;
        check!(Dnf::from(e.clone()) == d, "From<Expression> differs from dnf()");
        let back = d.clone().expression();
        same("dnf().expression()", &e, &back, ab)?;
        check!(Expression::from(d.clone()) == back, "From<Dnf> differs from expression()");
        check!(back.dnf() == d, "the normal form of the normal form is another one");
        let s = e.simplify();
        same("simplify", &e, &s, ab)?;
        check!(s.simplify() == s, "simplify is not idempotent on {e:?}");
        is_dnf_of("dnf of simplify", &s.clone().dnf(), &e, ab)?;
        for x in [&e, &s] {
            let text = x.to_string();
            let p = parse(&text).ok_or_else(|| Fail(format!("{x:?} is printed as {text}, which can not be parsed")))?;
            same("printed expression", x, &p, ab)?;
        }
        c.count("expressions", 1);
        c.count("evaluations_of_tag_sets", 6 << ab.len());
        c.max("conjunctions", d.0.len() as u64);
        c.saw(dnf_bits(ab, &d)?);
        if d.0.len() > 1 { c.count("normal_forms_with_several_conjunctions", 1) }
        if cost(&e) > d.0.len() as f64 { c.count("normal_forms_that_were_reduced", 1) }
        if let Some((e2, d2)) = out.choose(&mut c.rng) {
            if d.0.len() * d2.0.len() < 3000 {
                is_dnf_of("bitor", &(d.clone() | d2.clone()), &Expression::Or(vec![e.clone(), e2.clone()]), ab)?;
                is_dnf_of("bitand", &(d.clone() & d2.clone()), &Expression::And(vec![e.clone(), e2.clone()]), ab)?;
                let both = [minimal(&e, ab) == minimal(e2, ab), d == *d2];
                check!(both[0] == both[1], "normal forms are equal: {}, expressions are equal: {}", both[1], both[0]);
            }
        }
        out.push((e, d));
    }
    Ok(out)
}
fn holds(idx: &TagIndex, sets: &[TagSet], what: &str) -> Res {
    check!(idx.as_elements() == sets, "{what}: as_elements gives {:?} instead of {sets:?}", idx.as_elements());
    check!(idx.iter_elements().eq(sets.iter().cloned()), "{what}: iter_elements");
    for (i, s) in sets.iter().enumerate() {
        check!(idx.get(i).as_ref() == Some(s), "{what}: get({i}) gives {:?} instead of {s:?}", idx.get(i));
    }
    check!(idx.get(sets.len()).is_none() && idx.get(usize::MAX).is_none(), "{what}: get beyond the end");
    Ok(())
}
fn indexes(c: &mut Case, ab: &[Tag], ex: &[(Expression, Dnf)]) -> Res {
    // the table need not have all of the tags of the expressions
    let used = c.rng.gen_range(0..=ab.len());
    let p = *[0.1, 0.4, 0.8].choose(&mut c.rng).unwrap();
    let n = *[0usize, 1, 3, 30, 300].choose(&mut c.rng).unwrap();
    let masks: Vec<u32> = (0..n).map(|_| (0..used).filter(|_| c.rng.gen_bool(p)).map(|i| 1 << i).sum()).collect();
    let sets: Vec<TagSet> = masks.iter().map(|m| set_of(ab, *m)).collect();
    let idx = TagIndex::from_elements(&sets);
    holds(&idx, &sets, "from_elements")?;
    let cbor = DagCborCodec.encode(&idx).map_err(|e| Fail(format!("encode: {e:#}")))?;
    let json = serde_json::to_vec(&idx).map_err(|e| Fail(format!("json: {e:#}")))?;
    let via_cbor: TagIndex = DagCborCodec.decode(&cbor).map_err(|e| Fail(format!("decode {cbor:02x?}: {e:#}")))?;
    let via_json: TagIndex = serde_json::from_slice(&json).map_err(|e| Fail(format!("from json {}: {e:#}", String::from_utf8_lossy(&json))))?;
    check!(via_cbor == idx && via_json == idx, "round trip gives another index");
    holds(&via_cbor, &sets, "cbor")?;
    holds(&via_json, &sets, "json")?;
    c.count("indexes_round_tripped", 1);
    for (e, d) in ex {
        let want: Vec<usize> = masks.iter().enumerate().filter(|(_, m)| eval(e, ab, **m)).map(|(i, _)| i).collect();
        for (i, x) in [&idx, &via_cbor, &via_json].iter().enumerate() {
            let got = x.matching(d.clone());
            check!(got == want, "matching {e:?} on {sets:?} ({i}) gives {got:?} instead of {want:?}");
        }
        c.count("matchings", 1);
        c.count("matching_positions", want.len() as u64);
        if !want.is_empty() && want.len() < n { c.count("matchings_of_some", 1) }
    }
    // lookups in the table
    let table: TagSet = set_of(ab, (1u32 << used) - 1);
    for _ in 0..5 {
        let m = c.rng.gen_range(0..1u32 << ab.len());
        let s = set_of(ab, m);
        let got = map_to_index_set(&table, &s);
        let all = s.iter().all(|t| table.iter().any(|x| x == t));
        check!(got.is_some() == all, "map_to_index_set({table:?}, {s:?}) gives {got:?}");
        if let Some(g) = got {
            let back: TagSet = g.iter().map(|i| table.as_ref()[*i as usize].clone()).collect();
            check!(back == s, "map_to_index_set gives {g:?} for {s:?} in {table:?}");
        }
    }
    // references beyond the table
    let t = sets.iter().flat_map(|s| s.iter().cloned()).collect::<BTreeSet<_>>().len() as u64;
    if n > 0 {
        let tags: Vec<String> = idx.as_elements().iter().flat_map(|s| s.iter().map(|x| x.to_string()).collect::<Vec<_>>()).collect::<BTreeSet<_>>().into_iter().collect();
        let mut refs: Vec<Vec<u64>> = masks.iter().map(|m| set_of(ab, *m).iter().map(|x| tags.iter().position(|y| y == x).unwrap() as u64).collect()).collect();
        let i = c.rng.gen_range(0..n);
        let beyond = c.rng.gen_bool(0.8);
        let r = if beyond || t == 0 { *[t, t + 1, t + c.rng.gen_range(0..1000), u32::MAX as u64, 1 << 32, u64::MAX].choose(&mut c.rng).unwrap() } else { c.rng.gen_range(0..t) };
        if !refs[i].contains(&r) { refs[i].push(r) }
        let j = serde_json::json!([tags, refs]);
        let b = DagCborCodec.encode(&libipld::Ipld::List(vec![
            libipld::Ipld::List(tags.iter().map(|t| libipld::Ipld::String(t.clone())).collect()),
            libipld::Ipld::List(refs.iter().map(|r| libipld::Ipld::List(r.iter().map(|x| libipld::Ipld::Integer(*x as i128)).collect())).collect()),
        ])).map_err(|e| Fail(format!("encode: {e:#}")))?;
        let g: [(&str, Option<TagIndex>); 2] = [("json", serde_json::from_value(j).ok()), ("cbor", DagCborCodec.decode(&b).ok())];
        for (what, g) in g {
            check!(g.is_some() == (r < t), "{what} with a reference {r} into a table of {t} tags gives {g:?}");
            if let Some(g) = g {
                g.as_elements();
            }
        }
        c.count(if r < t { "valid_references" } else { "invalid_references" }, 1);
    }
    // damaged encodings: an error, or something that can be used
    for _ in 0..10 {
        let mut b = cbor.clone();
        for _ in 0..c.rng.gen_range(1..4) {
            if b.is_empty() { break }
            let i = c.rng.gen_range(0..b.len());
            match c.rng.gen_range(0..4) {
                0 => b[i] = c.rng.gen(),
                1 => b[i] = b[i].wrapping_add(1),
                2 => b.truncate(i),
                _ => b.insert(i, c.rng.gen()),
            }
        }
        c.desc = format!("damaged {b:02x?}");
        let r: anyhow::Result<TagIndex> = DagCborCodec.decode(&b);
        c.count("damaged_encodings", 1);
        if let Ok(x) = r {
            usable(&x, ex)?;
            c.count("damaged_encodings_accepted", 1);
        }
        let mut s = json.clone();
        let i = c.rng.gen_range(0..s.len());
        s[i] = if c.rng.gen() { b'0' + (c.rng.next_u32() % 10) as u8 } else { c.rng.gen() };
        if let Ok(x) = serde_json::from_slice::<TagIndex>(&s) {
            usable(&x, ex)?;
        }
    }
    Ok(())
}
fn usable(x: &TagIndex, ex: &[(Expression, Dnf)]) -> Res {
    let n = x.as_elements().len();
    for i in 0..n.min(50) {
        check!(x.get(i).is_some(), "get({i}) of {n}");
    }
    for (_, d) in ex.iter().take(3) {
        for i in x.matching(d.clone()) {
            check!(i < n, "matching gives {i} of {n}");
        }
    }
    Ok(())
}
fn case(c: &mut Case) -> Res {
    let ab = alphabet(&mut c.rng);
    let ex = expressions(c, &ab)?;
    for _ in 0..3 {
        indexes(c, &ab, &ex)?;
    }
    c.desc = format!("alphabet {ab:?}, {} expressions, first {}", ex.len(), ex[0].0);
    c.nontrivial = ab.len() > 2;
    Ok(())
}
fn main() {
    runner::main(Prop {
        require: &[("expressions", 20_000), ("normal_forms_that_were_reduced", 5000), ("matchings", 50_000), ("matchings_of_some", 5000), ("indexes_round_tripped", 3000), ("valid_references", 100), ("invalid_references", 500), ("damaged_encodings_accepted", 500)],
        quick_s: 20,
        ..Prop::new("C22", "random tag expressions (all constructors, odd and long tags, up to 30 literals over up to 8 tags) compared with a truth-table oracle on all subsets of the tags: the normal form must be exactly the list of minimal satisfying sets, and so must be those of the rebuilt, simplified, combined and re-parsed printed expressions; random tag indexes (also without some of the tags) are matched against every expression and round-tripped through CBOR and JSON; references beyond the table and damaged encodings; non-trivial: more than two tags; distinct: sets of normal forms", case)
    });
}
