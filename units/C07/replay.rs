//@prelude
use std::cmp::{self, max, min, Ordering}; use std::collections::{BTreeMap, HashMap, HashSet}; use std::hash::Hash; use std::ops::{Bound as StdBound, RangeBounds};
// one ordered and one equality-only column type stand in for DataFusion's
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
enum DataType { Ordered, Equal }
impl std::fmt::Display for DataType { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
#[derive(Debug, Clone, PartialEq, PartialOrd, Eq, Hash)]
struct ScalarValue(i64);
#[derive(Debug)]
struct ModelError(String);
struct InternalSnafu<T> { err: T }
impl<T: ToString> InternalSnafu<T> { fn build(self) -> ModelError { ModelError(self.err.to_string()) } fn fail<X>(self) -> ModelResult<X> { Err(self.build()) } }
type ModelResult<T> = Result<T, ModelError>;
//@extract common/models/src/predicate/domain.rs enum Bound
@derive Debug, Clone, PartialEq, PartialOrd, Ord, Eq
@end
//@extract common/models/src/predicate/domain.rs struct Marker
@derive Debug, Clone, Eq
@end
//@extract common/models/src/predicate/domain.rs impl From<&'a Marker> for Bound
@end
//@extract common/models/src/predicate/domain.rs impl Marker
@end
//@extract common/models/src/predicate/domain.rs impl PartialEq for Marker
@end
//@extract common/models/src/predicate/domain.rs impl Ord for Marker
@end
//@extract common/models/src/predicate/domain.rs impl PartialOrd for Marker
@end
//@extract common/models/src/predicate/domain.rs struct Range
@derive Debug, Clone, PartialEq, Eq
@end
//@extract common/models/src/predicate/domain.rs impl RangeBounds<ScalarValue> for Range
@end
//@extract common/models/src/predicate/domain.rs impl Range
@end
//@extract common/models/src/predicate/domain.rs struct ValueEntry
@derive Debug, Clone, PartialEq, Eq, Hash
@end
//@extract common/models/src/predicate/domain.rs impl ValueEntry
@end
//@extract common/models/src/predicate/domain.rs struct RangeValueSet
@derive Debug, Clone, PartialEq, Eq
@end
//@extract common/models/src/predicate/domain.rs impl RangeValueSet
@end
//@extract common/models/src/predicate/domain.rs struct EqutableValueSet
@derive Debug, Clone, PartialEq, Eq
@end
//@extract common/models/src/predicate/domain.rs impl EqutableValueSet
@end
//@extract common/models/src/predicate/domain.rs enum Domain
@derive Debug, Clone, PartialEq, Eq
@end
//@extract common/models/src/predicate/domain.rs impl Domain
@end
//@extract common/models/src/predicate/domain.rs struct ColumnDomains
@derive Debug, Clone, PartialEq, Eq
@end
//@extract common/models/src/predicate/domain.rs impl ColumnDomains
@end
//@helpers
// membership, read the way the query engine and the tag index read a domain
fn has(d: &Domain, v: i64) -> bool { match d {
    Domain::All => true, Domain::None => false,
    Domain::Range(s) => s.low_indexed_ranges().into_iter().any(|(_, r)| RangeBounds::<ScalarValue>::contains(r, &ScalarValue(v))),
    Domain::Equtable(s) => s.entries().into_iter().any(|e| e.value() == &ScalarValue(v)) == s.is_white_list(),
} }
// a set of values in the terms the domains are built from: (kind, a, b)
type Piece = (u8, i64, i64);
fn inp(p: &Piece, v: i64) -> bool { let (k, a, b) = *p; match k { 0 => v == a, 1 => v > a, 2 => v >= a, 3 => v < a, 4 => v <= a, 5 => a < v && v < b, 6 => a <= v && v < b, 7 => a < v && v <= b, 8 => a <= v && v <= b, 9 => true, _ => v != a } }
fn range(p: &Piece) -> Vec<Range> { let t = DataType::Ordered; let (k, a, b) = (p.0, &ScalarValue(p.1), &ScalarValue(p.2)); match k {
    0 => vec![Range::eq(&t, a)], 1 => vec![Range::gt(&t, a)], 2 => vec![Range::ge(&t, a)], 3 => vec![Range::lt(&t, a)], 4 => vec![Range::le(&t, a)], 5 => vec![Range::gtlt(&t, a, b)], 6 => vec![Range::gelt(&t, a, b)],
    7 => vec![Range::gtle(&t, a, b)], 8 => vec![Range::gele(&t, a, b)], 9 => vec![Range::all(&t)], _ => Range::ne(&t, a) } }
#[derive(Debug, Clone, Hash)]
enum Spec { R(Vec<Piece>), E(bool, Vec<i64>), All, None }
fn want(s: &Spec, v: i64) -> bool { match s { Spec::R(p) => p.iter().any(|p| inp(p, v)), Spec::E(w, l) => l.contains(&v) == *w, Spec::All => true, Spec::None => false } }
fn build(s: &Spec) -> Domain { match s {
    Spec::R(p) => Domain::of_ranges(&p.iter().flat_map(|p| range(p)).collect::<Vec<_>>()).unwrap(),
    Spec::E(w, l) => { let vs: Vec<ScalarValue> = l.iter().map(|v| ScalarValue(*v)).collect(); Domain::of_values(&DataType::Equal, *w, &vs.iter().collect::<Vec<_>>()) }
    Spec::All => Domain::All, Spec::None => Domain::None } }
const PROBE: std::ops::RangeInclusive<i64> = 0..=10;     // literals are even, so odd values lie between them
fn same(what: &str, d: &Domain, w: &dyn Fn(i64) -> bool) -> Result<(), String> {
    for v in PROBE { if has(d, v) != w(v) { return Err(format!("{what}: {d:?} {} {v}", if w(v) { "lacks" } else { "must not contain" })); } }
    if let Domain::Range(s) = d { // sorted, and no two ranges that could be one
        let l: Vec<&Range> = s.low_indexed_ranges().into_iter().map(|x| x.1).collect();
        for w in l.windows(2) { if w[0].is_connected(w[1]).unwrap() || !(w[0].low < w[1].low) { return Err(format!("{what}: not compacted: {d:?}")); } }
    }
    Ok(())
}
fn pair(a: &Spec, b: &Spec) -> Result<(), String> {
    let (da, db) = (build(a), build(b));
    same("built", &da, &|v| want(a, v))?; same("built", &db, &|v| want(b, v))?;
    same("intersection", &da.intersect(&db).map_err(|e| e.0)?, &|v| want(a, v) && want(b, v))?;
    same("union", &da.union(&db).map_err(|e| e.0)?, &|v| want(a, v) || want(b, v))?;
    Ok(())
}
// columns: 0, 1 ordered; 2, 3 equality only
type Cols = Vec<(u8, Spec)>;
#[derive(Debug, Clone, Hash)]
enum Cd { None, Of(Cols) }
fn cbuild(c: &Cd) -> ColumnDomains<u8> { match c { Cd::None => ColumnDomains::none(), Cd::Of(l) => { let mut r = ColumnDomains::all(); for (c, s) in l { r.insert_or_intersect(*c, &build(s)); } r } } }
fn crow(c: &Cd, row: &[i64; 4]) -> bool { match c { Cd::None => false, Cd::Of(l) => l.iter().all(|(c, s)| want(s, row[*c as usize])) } }
fn chas(c: &ColumnDomains<u8>, row: &[i64; 4]) -> bool { match c.domains() { None => false, Some(m) => m.iter().all(|(k, d)| has(d, row[*k as usize])) } }
fn cols(a: &Cd, b: &Cd, rows: &[[i64; 4]]) -> Result<(), String> {
    let (ca, cb) = (cbuild(a), cbuild(b));
    let mut i = ca.clone(); i.intersect(&cb);
    let mut u = ca.clone(); u.column_wise_union(&cb);
    let tr = ca.translate_column(|c| if *c == 1 { None } else { Some(*c) });
    for r in rows {
        let (wa, wb) = (crow(a, r), crow(b, r));
        if chas(&ca, r) != wa { return Err(format!("{ca:?} at row {r:?}: {}", !wa)); }
        if chas(&i, r) != (wa && wb) { return Err(format!("intersect gives {i:?}: {} at row {r:?}", chas(&i, r))); }
        if (wa || wb) && !chas(&u, r) { return Err(format!("union {u:?} lost row {r:?}")); }
        let keep = |c: &Cd| match c { Cd::None => Cd::None, Cd::Of(l) => Cd::Of(l.iter().filter(|x| x.0 != 1).cloned().collect()) };
        if chas(&tr, r) != crow(&keep(a), r) { return Err(format!("translate_column gives {tr:?}: {} at row {r:?}", chas(&tr, r))); }
    }
    if let (Cd::Of(la), Cd::Of(lb)) = (a, b) { for k in 0..4u8 {
        let (ha, hb) = (la.iter().any(|x| x.0 == k), lb.iter().any(|x| x.0 == k));
        match u.domains().unwrap().get(&k) { None => if ha && hb { return Err(format!("union {u:?} lost column {k}")) }, Some(d) => { if !(ha && hb) { return Err(format!("union restricts column {k}")); }
            let f = |l: &Cols, v: i64| l.iter().filter(|x| x.0 == k).all(|x| want(&x.1, v));
            same("column union", d, &|v| f(la, v) || f(lb, v))? } }
    } }
    if ca.is_none() != matches!(a, Cd::None) { return Err("is_none".into()); }
    if ca.is_all() && rows.iter().any(|r| !crow(a, r)) { return Err("is_all".into()); }
    if !chas(&ColumnDomains::all(), &rows[0]) || chas(&ColumnDomains::none(), &rows[0]) { return Err("all/none".into()); }
    Ok(())
}
fn collect(first: &Spec, more: &[Spec], rows: &[[i64; 4]]) -> Result<(), String> {
    let k = match first { Spec::R(_) => 0u8, _ => 2 };
    let mut c = ColumnDomains::of(k, &build(first));
    for m in more { c.insert_or_union(k, &build(m)); }
    for r in rows { let w = want(first, r[k as usize]) || more.iter().any(|m| want(m, r[k as usize])); if chas(&c, r) != w { return Err(format!("{c:?} is {} at {r:?}", !w)); } }
    let mut n: ColumnDomains<u8> = ColumnDomains::none(); n.insert_or_union(k, &build(first));
    for r in rows { if chas(&n, r) != want(first, r[k as usize]) { return Err(format!("none, then {first:?}: {n:?} at {r:?}")); } }
    Ok(())
}
fn main() {
    let mut h = H::new(); let mut r = h.rng(7);
    let lits = [2i64, 4, 6, 8];
    let mut pieces: Vec<Piece> = vec![(9, 0, 0)];
    for a in lits { for k in [0u8, 1, 2, 3, 4, 10] { pieces.push((k, a, 0)); } for b in lits { for k in 5..9u8 { if a < b || (a == b && k == 8) { pieces.push((k, a, b)); } } } }
    let mut vals: Vec<Vec<i64>> = vec![]; for m in 0..8u32 { vals.push((0..3).filter(|i| m >> i & 1 == 1).map(|i| lits[i as usize]).collect()); }
    let mut eqs: Vec<Spec> = vec![]; for v in &vals { for w in [true, false] { eqs.push(Spec::E(w, v.clone())); } }
    eqs.push(Spec::All); eqs.push(Spec::None);
    let one: Vec<Spec> = pieces.iter().map(|p| Spec::R(vec![*p])).chain([Spec::All, Spec::None]).collect();
    for set in [&one, &eqs] { for a in set { for b in set { h.case("pair", hash(&(a, b)), &|| format!("{a:?} with {b:?}"), &mut || pair(a, b)); } } }
    // a list on one side, a range on the other: the union of the columns may widen, never lose
    for a in one.iter().chain(&eqs) { for b in one.iter().chain(&eqs) { h.case("mixed", hash(&(a, b, 5)), &|| format!("{a:?} or {b:?}"), &mut || {
        let mut u = ColumnDomains::of(1u8, &build(a)); u.column_wise_union(&ColumnDomains::of(1u8, &build(b)));
        for v in 0..11i64 { if (want(a, v) || want(b, v)) && !chas(&u, &[v; 4]) { return Err(format!("{u:?} lost {v}")); } }
        Ok(())
    }); } }
    for a in &pieces { for b in &pieces { for c in &pieces {
        let s = Spec::R(vec![*a, *b, *c]);
        h.case("triple", hash(&s), &|| format!("{s:?}"), &mut || same("built", &build(&s), &|v| want(&s, v)));
    } } }
    h.exhaustive("every pair and triple of single ranges over four literals, every pair of value lists over three values");
    let rnd = |r: &mut Rng, ordered: bool| -> Spec { if !ordered { return r.pick(&eqs); } match r.below(12) { 0 => Spec::All, 1 => Spec::None, n => Spec::R((0..1 + n % 4).map(|_| r.pick(&pieces)).collect()) } };
    let rcd = |r: &mut Rng| -> Cd { if r.below(9) == 0 { return Cd::None; } Cd::Of((0..r.below(5)).map(|_| { let c = r.below(4) as u8; (c, rnd(r, c < 2)) }).collect()) };
    for n in 0..h.scale(30_000, 2_000_000) {
        let rows: Vec<[i64; 4]> = (0..40).map(|_| [r.below(11) as i64, r.below(11) as i64, r.below(11) as i64, r.below(11) as i64]).collect();
        match n % 3 {
            0 => { let (a, b) = (rnd(&mut r, true), rnd(&mut r, true)); h.case("sets", hash(&(&a, &b)), &|| format!("{a:?} with {b:?}"), &mut || pair(&a, &b)); }
            1 => { let (a, b) = (rcd(&mut r), rcd(&mut r)); h.case("columns", hash(&(&a, &b)), &|| format!("{a:?} with {b:?}"), &mut || cols(&a, &b, &rows)); }
            _ => { let o = r.below(2) == 0; let f = rnd(&mut r, o); let o = matches!(f, Spec::R(_)); let f = if matches!(f, Spec::All | Spec::None) { Spec::E(true, vec![2]) } else { f };
                let m: Vec<Spec> = (0..r.below(4)).map(|_| rnd(&mut r, o)).collect();
                h.case("collect", hash(&(&f, &m)), &|| format!("{f:?} plus {m:?}"), &mut || collect(&f, &m, &rows)); }
        }
    }
    h.done();
}
