use vstd::prelude::*;
verus! {
global size_of usize == 8;
type B = Seq<u8>;
struct QueryError {}
type QueryResult<T> = std::result::Result<T, QueryError>;
spec fn metric_() -> B { seq![95u8, 95, 110, 97, 109, 101, 95, 95] } // __name__
#[verifier::external_body] fn metric_label() -> (r: &'static [u8]) ensures r@ == metric_() { b"__name__" }
#[verifier::external_body] fn text_is(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] fn text(a: &Vec<u8>) -> (r: &[u8]) ensures r@ == a@ { a.as_slice() }
#[verifier::external_body] fn copy(a: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == a@ { a.clone() }
fn is_empty(a: &[u8]) -> (r: bool) ensures r == (a@ == Seq::<u8>::empty()) { let r = a.len() == 0; proof { if r { assert(a@ =~= Seq::<u8>::empty()); } } r }
spec fn clamp(x: int) -> int { if x < i64::MIN { i64::MIN as int } else if x > i64::MAX { i64::MAX as int } else { x } }
#[verifier::external_body] fn sat_mul(a: i64, b: i64) -> (r: i64) ensures r == clamp(a * b) { a.saturating_mul(b) }
// ---- a name or a text in SQL: between quotes, each quote in it twice ----
spec fn doubled(q: u8, s: B) -> B decreases s.len() { if s.len() == 0 { s } else if s[0] == q { seq![q, q] + doubled(q, s.skip(1)) } else { seq![s[0]] + doubled(q, s.skip(1)) } }
spec fn quoted(q: u8, s: B) -> B { seq![q] + doubled(q, s) + seq![q] }
/// what a reader of SQL makes of a quoted text, and what is left
spec fn reads(q: u8, s: B) -> Option<(B, B)> { if s.len() == 0 || s[0] != q { None } else { inside(q, s.skip(1)) } }
spec fn inside(q: u8, s: B) -> Option<(B, B)> decreases s.len() {
    if s.len() == 0 { None }
    else if s[0] == q { if s.len() > 1 && s[1] == q { match inside(q, s.skip(2)) { Some(p) => Some((seq![q] + p.0, p.1)), None => None } } else { Some((Seq::empty(), s.skip(1))) } }
    else { match inside(q, s.skip(1)) { Some(p) => Some((seq![s[0]] + p.0, p.1)), None => None } }
}
proof fn lemma_inside(q: u8, s: B, rest: B)
    requires rest.len() == 0 || rest[0] != q
    ensures inside(q, doubled(q, s) + (seq![q] + rest)) == Some((s, rest))
    decreases s.len()
{
    let t = doubled(q, s) + (seq![q] + rest);
    if s.len() == 0 { assert(t =~= seq![q] + rest); assert(t.skip(1) =~= rest); assert(s =~= Seq::<u8>::empty()); }
    else {
        lemma_inside(q, s.skip(1), rest); let u = doubled(q, s.skip(1)) + (seq![q] + rest);
        if s[0] == q { assert(t.skip(2) =~= u); assert(seq![q] + s.skip(1) =~= s); } else { assert(t.skip(1) =~= u); assert(seq![s[0]] + s.skip(1) =~= s); }
    }
}
/// a quoted text is read as the text, whatever is in it, and nothing of it is left for the statement
proof fn lemma_quoted(q: u8, s: B, rest: B) requires rest.len() == 0 || rest[0] != q ensures reads(q, quoted(q, s) + rest) == Some((s, rest))
{ lemma_inside(q, s, rest); assert((quoted(q, s) + rest).skip(1) =~= doubled(q, s) + (seq![q] + rest)); }
spec fn unquoted(q: u8, s: B) -> B { (reads(q, s)->0).0 }
proof fn lemma_unquoted(q: u8) ensures forall|s: B| unquoted(q, #[trigger] quoted(q, s)) == s { assert forall|s: B| unquoted(q, #[trigger] quoted(q, s)) == s by { lemma_quoted(q, s, Seq::empty()); assert(quoted(q, s) + Seq::<u8>::empty() =~= quoted(q, s)); } }
#[verifier::external_body] fn double(s: &[u8], q: u8) -> (r: Vec<u8>) ensures r@ == doubled(q, s@) { unimplemented!() }
#[verifier::external_body] fn between(q: u8, s: Vec<u8>) -> (r: Vec<u8>) ensures r@ == seq![q] + s@ + seq![q] { unimplemented!() }
//@extract query_server/query/src/prom/remote_server.rs fn ident
@subst /name: &str\) -> String/ => name: &[u8]) -> Vec<u8>
@subst /format!\("\\"\{\}\\"", name\.replace\('"', "\\"\\""\)\)/ => between(34, double(name, 34))
@ret r
@spec
    ensures r@ == quoted(34, name@)
@end
//@extract query_server/query/src/prom/remote_server.rs fn literal
@subst /value: &str\) -> String/ => value: &[u8]) -> Vec<u8>
@subst /format!\("'\{\}'", value\.replace\('\\'', "''"\)\)/ => between(39, double(value, 39))
@ret r
@spec
    ensures r@ == quoted(39, value@)
@end
// ---- patterns ----
spec fn finds(pattern: B, t: B) -> bool; // the pattern is found somewhere in the text
spec fn whole(pattern: B, t: B) -> bool; // the pattern is the whole of the text
spec fn valid(pattern: B) -> bool;
spec fn tied(pattern: B) -> B; // ^(?:pattern)$
proof fn axiom_tied(p: B) ensures valid(tied(p)) == valid(p), forall|t: B| finds(tied(p), t) == #[trigger] whole(p, t) { admit(); }
#[verifier::external_body] fn tie(p: &[u8]) -> (r: Vec<u8>) ensures r@ == tied(p@) { unimplemented!() }
#[verifier::external_body] fn pattern_of(p: &Vec<u8>) -> (r: QueryResult<Vec<u8>>) ensures r matches Ok(x) ==> x@ == p@ && valid(p@), r is Err ==> !valid(p@) { unimplemented!() }
#[verifier::external_body] fn finds_empty(p: &Vec<u8>) -> (r: QueryResult<bool>) ensures r matches Ok(x) ==> x == finds(p@, Seq::empty()) && valid(p@), r is Err ==> !valid(p@) { unimplemented!() }
//@extract query_server/query/src/prom/remote_server.rs fn anchored
@subst /pattern: &str\) -> String/ => pattern: &[u8]) -> Vec<u8>
@subst /format!\("\^\(\?:\{\}\)\$", pattern\)/ => tie(pattern)
@ret r
@spec
    ensures valid(r@) == valid(pattern@), forall|t: B| #[trigger] finds(r@, t) == whole(pattern@, t)
@at start
    proof { axiom_tied(pattern@); assert(forall|t: B| #[trigger] finds(tied(pattern@), t) == whole(pattern@, t)); }
@end
// ---- rows, and the conditions of SQL on them: true, false or unknown ----
ghost struct Row { labels: Map<B, B>, time: int } // the labels that are not null
struct Cond { f: Ghost<spec_fn(Row) -> Option<bool>> }
spec fn on(row: Row, name: B, ok: spec_fn(B) -> bool) -> Option<bool> { if row.labels.contains_key(name) { Some(ok(row.labels[name])) } else { None } }
#[verifier::external_body] fn cond_eq(n: Vec<u8>, v: Vec<u8>) -> (r: Cond) ensures forall|row: Row| #[trigger] (r.f@)(row) == on(row, unquoted(34, n@), |x: B| x == unquoted(39, v@)) { unimplemented!() }
#[verifier::external_body] fn cond_ne(n: Vec<u8>, v: Vec<u8>) -> (r: Cond) ensures forall|row: Row| #[trigger] (r.f@)(row) == on(row, unquoted(34, n@), |x: B| x != unquoted(39, v@)) { unimplemented!() }
#[verifier::external_body] fn cond_re(n: Vec<u8>, v: Vec<u8>) -> (r: Cond) ensures forall|row: Row| #[trigger] (r.f@)(row) == on(row, unquoted(34, n@), |x: B| finds(unquoted(39, v@), x)) { unimplemented!() }
#[verifier::external_body] fn cond_nre(n: Vec<u8>, v: Vec<u8>) -> (r: Cond) ensures forall|row: Row| #[trigger] (r.f@)(row) == on(row, unquoted(34, n@), |x: B| !finds(unquoted(39, v@), x)) { unimplemented!() }
spec fn or_null_(c: Option<bool>, null: bool) -> Option<bool> { if null { Some(true) } else { match c { Some(b) => Some(b), None => None } } }
#[verifier::external_body] fn or_null(c: &Cond, n: Vec<u8>) -> (r: Cond) ensures forall|row: Row| #[trigger] (r.f@)(row) == or_null_((c.f@)(row), !row.labels.contains_key(unquoted(34, n@))) { unimplemented!() }
#[verifier::external_body] fn copy_cond(c: &Cond) -> (r: Cond) ensures r.f@ == c.f@ { unimplemented!() }
#[verifier::external_body] fn time_ge(t: i64) -> (r: Cond) ensures forall|row: Row| #[trigger] (r.f@)(row) == Some(row.time >= t) { unimplemented!() }
#[verifier::external_body] fn time_le(t: i64) -> (r: Cond) ensures forall|row: Row| #[trigger] (r.f@)(row) == Some(row.time <= t) { unimplemented!() }
spec fn all_true(c: Seq<Cond>, row: Row) -> bool { forall|i: int| 0 <= i < c.len() ==> ((#[trigger] c[i]).f@)(row) == Some(true) }
struct Sql { from: Ghost<B>, conds: Ghost<Seq<Cond>> }
#[verifier::external_body] fn select(from: Vec<u8>, conds: &Vec<Cond>) -> (r: Sql) ensures r.from@ == unquoted(34, from@), r.conds@ == conds@ { unimplemented!() }
spec fn picks(s: Sql, row: Row) -> bool { all_true(s.conds@, row) }
// ---- matchers ----
#[derive(Clone, Copy)] enum Type { Eq, Neq, Re, Nre }
struct LabelMatcher { t: Type, name: Vec<u8>, value: Vec<u8> }
impl LabelMatcher { fn kind(&self) -> (r: Type) ensures r == self.t { self.t } }
spec fn accepts_(t: Type, p: B, v: B) -> bool { match t { Type::Eq => v == p, Type::Neq => v != p, Type::Re => whole(p, v), Type::Nre => !whole(p, v) } }
spec fn accepts(m: LabelMatcher, v: B) -> bool { accepts_(m.t, m.value@, v) }
spec fn by_pattern(t: Type) -> bool { t is Re || t is Nre }
//@extract query_server/query/src/prom/remote_server.rs fn label_filter
@subst /r#type: Type, name: &str, value: &str\) -> QueryResult<\(String, bool\)>/ => kind: Type, name: &[u8], value: &[u8]) -> QueryResult<(Cond, bool)>
@subst /let regex_accepts_empty = \|\| \{\s*Regex::new\(&anchored\(value\)\)\s*\.map\(\|pattern\| pattern\.is_match\(""\)\)\s*\.map_err\([\s\S]*?\}\)\s*\};/ => let accepting_empty = anchored(value);
@subst /regex_accepts_empty\(\)\?/ => finds_empty(&accepting_empty)?
@subst /let name = ident\(name\);/ => let quoted_name = ident(name);
@subst /r#type/ => kind
@subst /format!\("\{\} = \{\}", name/ => cond_eq(quoted_name
@subst /format!\("\{\} != \{\}", name/ => cond_ne(quoted_name
@subst /format!\("\{\} ~ \{\}", name, literal\(&anchored\(value\)\)/ => cond_re(quoted_name, literal(text(&anchored(value)))
@subst /format!\("\{\} !~ \{\}", name, literal\(&anchored\(value\)\)/ => cond_nre(quoted_name, literal(text(&anchored(value)))
@subst /value\.is_empty\(\)/ => is_empty(value)
@ret r
@spec
    ensures
        r matches Ok(x) ==> (forall|row: Row| #[trigger] (x.0.f@)(row) == on(row, name@, |v: B| accepts_(kind, value@, v))) && x.1 == accepts_(kind, value@, Seq::empty()),
        r is Err ==> by_pattern(kind) && !valid(value@),
@at start
    proof { lemma_unquoted(34); lemma_unquoted(39); }
@end
// ---- tables ----
struct Table { name: Vec<u8>, labels: Ghost<Set<B>> }
type TskvTableSchemaRef = Table;
#[verifier::external_body] fn has_label(t: &Table, n: &Vec<u8>) -> (r: bool) ensures r == t.labels@.contains(n@) { unimplemented!() }
struct SqlWithTable { sql: Sql, table: Table }
struct Context {}
impl Context { #[verifier::external_body] fn database(&self) -> &[u8] { unimplemented!() } }
struct Meta {}
impl Meta {
    spec fn all(&self) -> Seq<Table>; // of the database
    spec fn down(&self) -> bool;
    #[verifier::external_body] fn table(&self, db: &[u8], n: &Vec<u8>) -> (r: QueryResult<Table>)
        ensures r matches Ok(t) ==> self.all().contains(t) && t.name@ == n@, r is Err ==> self.down() || forall|i: int| 0 <= i < self.all().len() ==> (#[trigger] self.all()[i]).name@ != n@ { unimplemented!() }
    #[verifier::external_body] fn matching(&self, db: &[u8], p: &Vec<u8>) -> (r: QueryResult<Vec<Table>>)
        ensures r matches Ok(v) ==> v@ == self.all().filter(|t: Table| finds(p@, t.name@)), r is Err ==> self.down() { unimplemented!() }
}
#[verifier::external_body] fn take_all(v: &mut Vec<Table>) -> (r: Vec<Table>) ensures r@ == old(v)@, final(v)@ == Seq::<Table>::empty() { std::mem::take(v) }
spec fn named_in(t: Table, w: Seq<Table>) -> bool { exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]).name@ == t.name@ }
#[verifier::external_body] fn retain_named(v: &mut Vec<Table>, w: &Vec<Table>) ensures final(v)@ == old(v)@.filter(|t: Table| named_in(t, w@)) { unimplemented!() }
#[verifier::external_body] fn copy_table(t: &Table) -> (r: Table) ensures r == *t { unimplemented!() }
spec fn by_name(a: Seq<Table>) -> bool { forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && a[i].name@ == a[j].name@ ==> i == j }
struct PromQuery { start_timestamp_ms: i64, end_timestamp_ms: i64, matchers: Vec<LabelMatcher> }
// ---- what a query asks for ----
spec fn of_name(m: LabelMatcher) -> bool { m.name@ == metric_() }
spec fn name_ok(ms: Seq<LabelMatcher>, k: int, t: Table) -> bool { forall|j: int| 0 <= j < k && of_name(#[trigger] ms[j]) ==> accepts(ms[j], t.name@) }
spec fn has_name(ms: Seq<LabelMatcher>, k: int) -> bool { exists|j: int| 0 <= j < k && of_name(#[trigger] ms[j]) }
spec fn value_of(row: Row, n: B) -> B { if row.labels.contains_key(n) { row.labels[n] } else { Seq::empty() } }
spec fn row_of(row: Row, t: Table) -> bool { i64::MIN < row.time < i64::MAX && forall|n: B| row.labels.contains_key(n) ==> #[trigger] t.labels@.contains(n) }
spec fn label_ok(ms: Seq<LabelMatcher>, row: Row) -> bool { forall|j: int| 0 <= j < ms.len() && !of_name(#[trigger] ms[j]) ==> accepts(ms[j], value_of(row, ms[j].name@)) }
spec fn asked(q: PromQuery, t: Table, row: Row) -> bool {
    has_name(q.matchers@, q.matchers@.len() as int) && name_ok(q.matchers@, q.matchers@.len() as int, t) && label_ok(q.matchers@, row) && q.start_timestamp_ms * 1_000_000 <= row.time <= q.end_timestamp_ms * 1_000_000
}
spec fn read_by(v: Seq<SqlWithTable>, t: Table, row: Row) -> bool { exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).table == t && picks(v[k].sql, row) }
spec fn refused(m: LabelMatcher, meta: Meta) -> bool {
    if of_name(m) { match m.t { Type::Eq => meta.down() || forall|i: int| 0 <= i < meta.all().len() ==> (#[trigger] meta.all()[i]).name@ != m.value@, Type::Re => meta.down() || !valid(m.value@), _ => true } } else { by_pattern(m.t) && !valid(m.value@) }
}
spec fn may_fail(ms: Seq<LabelMatcher>, meta: Meta) -> bool { exists|j: int| 0 <= j < ms.len() && refused(#[trigger] ms[j], meta) }
// the matchers on labels, in order
spec fn on_labels(ms: Seq<LabelMatcher>, k: int) -> Seq<LabelMatcher> decreases k { if k <= 0 { Seq::empty() } else if of_name(ms[k - 1]) { on_labels(ms, k - 1) } else { on_labels(ms, k - 1).push(ms[k - 1]) } }
spec fn all_accept(l: Seq<LabelMatcher>, k: int, row: Row) -> bool { forall|p: int| 0 <= p < k ==> accepts(#[trigger] l[p], value_of(row, l[p].name@)) }
spec fn accept_until(ms: Seq<LabelMatcher>, k: int, row: Row) -> bool { forall|j: int| 0 <= j < k && !of_name(#[trigger] ms[j]) ==> accepts(ms[j], value_of(row, ms[j].name@)) }
proof fn lemma_on_labels(ms: Seq<LabelMatcher>, k: int, row: Row)
    requires 0 <= k <= ms.len()
    ensures all_accept(on_labels(ms, k), on_labels(ms, k).len() as int, row) == accept_until(ms, k, row)
    decreases k
{
    if k > 0 {
        lemma_on_labels(ms, k - 1, row); let l = on_labels(ms, k); let l0 = on_labels(ms, k - 1);
        if !of_name(ms[k - 1]) {
            assert(forall|p: int| 0 <= p < l0.len() ==> l[p] == #[trigger] l0[p]); assert(l[l.len() - 1] == ms[k - 1]);
            if all_accept(l, l.len() as int, row) { assert(all_accept(l0, l0.len() as int, row)) by { assert forall|p: int| 0 <= p < l0.len() implies accepts(#[trigger] l0[p], value_of(row, l0[p].name@)) by { assert(l[p] == l0[p]); } } }
            if accept_until(ms, k, row) { assert(accept_until(ms, k - 1, row)); }
        }
    }
}
spec fn filter_of(e: (Vec<u8>, Cond, bool), m: LabelMatcher) -> bool { e.0@ == m.name@ && e.2 == accepts(m, Seq::empty()) && forall|row: Row| #[trigger] (e.1.f@)(row) == on(row, m.name@, |v: B| accepts(m, v)) }
spec fn filters_of(l: Seq<(Vec<u8>, Cond, bool)>, ms: Seq<LabelMatcher>) -> bool { l.len() == ms.len() && forall|p: int| 0 <= p < l.len() ==> filter_of(#[trigger] l[p], ms[p]) }
spec fn the_tables(v: Seq<Table>, all: Seq<Table>, ms: Seq<LabelMatcher>, k: int) -> bool {
    &&& by_name(v)
    &&& forall|t: Table| #[trigger] v.contains(t) <==> has_name(ms, k) && all.contains(t) && name_ok(ms, k, t)
}
proof fn lemma_filter(a: Seq<Table>, f: spec_fn(Table) -> bool)
    requires by_name(a)
    ensures by_name(a.filter(f)), forall|t: Table| #[trigger] a.filter(f).contains(t) <==> a.contains(t) && f(t)
    decreases a.len()
{
    reveal(Seq::filter);
    if a.len() > 0 {
        let b = a.drop_last(); lemma_filter(b, f); let x = a.last();
        assert forall|t: Table| #[trigger] a.contains(t) == (b.contains(t) || t == x) by {
            if a.contains(t) { let i = choose|i: int| 0 <= i < a.len() && a[i] == t; if i < b.len() { assert(b[i] == t); } }
            if b.contains(t) { let i = choose|i: int| 0 <= i < b.len() && b[i] == t; assert(a[i] == t); }
            if t == x { assert(a[a.len() - 1] == t); }
        }
        let bf = b.filter(f); let af = a.filter(f);
        if f(x) {
            assert(af == bf.push(x));
            assert forall|t: Table| #[trigger] af.contains(t) == (bf.contains(t) || t == x) by {
                if af.contains(t) { let i = choose|i: int| 0 <= i < af.len() && af[i] == t; if i < bf.len() { assert(bf[i] == t); } }
                if bf.contains(t) { let i = choose|i: int| 0 <= i < bf.len() && bf[i] == t; assert(af[i] == t); }
                if t == x { assert(af[af.len() - 1] == t); }
            }
            assert forall|i: int, j: int| 0 <= i < af.len() && 0 <= j < af.len() && af[i].name@ == af[j].name@ implies i == j by {
                if i < bf.len() && j < bf.len() { assert(bf[i].name@ == bf[j].name@); }
                else if i < bf.len() { assert(bf.contains(bf[i])); let z = choose|z: int| 0 <= z < b.len() && b[z] == bf[i]; assert(a[z] == bf[i] && a[a.len() - 1] == x); }
                else if j < bf.len() { assert(bf.contains(bf[j])); let z = choose|z: int| 0 <= z < b.len() && b[z] == bf[j]; assert(a[z] == bf[j] && a[a.len() - 1] == x); }
            }
        } else { assert(af == bf); }
    }
}
proof fn lemma_same(a: Seq<Table>, x: Table, y: Table) requires by_name(a), a.contains(x), a.contains(y), x.name@ == y.name@ ensures x == y
{ let i = choose|i: int| 0 <= i < a.len() && a[i] == x; let j = choose|j: int| 0 <= j < a.len() && a[j] == y; assert(a[i].name@ == a[j].name@); }
spec fn accepted_by(v: Seq<Table>, all: Seq<Table>, m: LabelMatcher) -> bool { by_name(v) && forall|t: Table| #[trigger] v.contains(t) <==> all.contains(t) && accepts(m, t.name@) }
proof fn lemma_one(v: Seq<Table>, all: Seq<Table>, m: LabelMatcher) requires by_name(all), m.t is Eq, v.len() == 1, all.contains(v[0]), v[0].name@ == m.value@ ensures accepted_by(v, all, m)
{
    assert forall|t: Table| #[trigger] v.contains(t) <==> all.contains(t) && accepts(m, t.name@) by {
        if v.contains(t) { assert(t == v[0]); }
        if all.contains(t) && accepts(m, t.name@) { lemma_same(all, t, v[0]); assert(v[0] == t); }
    }
}
proof fn lemma_many(v: Seq<Table>, all: Seq<Table>, m: LabelMatcher, p: B) requires by_name(all), m.t is Re, v == all.filter(|t: Table| finds(p, t.name@)), forall|x: B| #[trigger] finds(p, x) == whole(m.value@, x) ensures accepted_by(v, all, m)
{
    lemma_filter(all, |t: Table| finds(p, t.name@));
    assert forall|t: Table| #[trigger] v.contains(t) <==> all.contains(t) && accepts(m, t.name@) by { assert(finds(p, t.name@) == whole(m.value@, t.name@)); }
}
proof fn lemma_step(all: Seq<Table>, ms: Seq<LabelMatcher>, i: int, b0: Seq<Table>, t1: Seq<Table>, v: Seq<Table>)
    requires by_name(all), 0 < i <= ms.len(), of_name(ms[i - 1]), the_tables(b0, all, ms, i - 1), accepted_by(t1, all, ms[i - 1]),
        has_name(ms, i - 1) ==> v == t1.filter(|t: Table| named_in(t, b0)), !has_name(ms, i - 1) ==> v == t1
    ensures the_tables(v, all, ms, i), has_name(ms, i)
{
    lemma_filter(t1, |t: Table| named_in(t, b0));
    assert(has_name(ms, i)) by { assert(of_name(ms[i - 1])); }
    assert forall|t: Table| #[trigger] v.contains(t) <==> has_name(ms, i) && all.contains(t) && name_ok(ms, i, t) by {
        assert(v.contains(t) ==> t1.contains(t));
        assert(name_ok(ms, i, t) == (name_ok(ms, i - 1, t) && accepts(ms[i - 1], t.name@)));
        if has_name(ms, i - 1) {
            if all.contains(t) {
                if named_in(t, b0) { let z = choose|z: int| 0 <= z < b0.len() && (#[trigger] b0[z]).name@ == t.name@; assert(b0.contains(b0[z])); lemma_same(all, t, b0[z]); assert(b0.contains(t)); }
                if b0.contains(t) { let z = choose|z: int| 0 <= z < b0.len() && b0[z] == t; assert(b0[z].name@ == t.name@); assert(named_in(t, b0)); }
            }
        } else { assert(name_ok(ms, i - 1, t)); }
    }
}
proof fn lemma_other(all: Seq<Table>, ms: Seq<LabelMatcher>, i: int, v: Seq<Table>)
    requires 0 < i <= ms.len(), !of_name(ms[i - 1]), the_tables(v, all, ms, i - 1)
    ensures the_tables(v, all, ms, i), has_name(ms, i) == has_name(ms, i - 1)
{
    assert(has_name(ms, i) == has_name(ms, i - 1));
    assert forall|t: Table| name_ok(ms, i, t) == #[trigger] name_ok(ms, i - 1, t) by {}
    assert forall|t: Table| #[trigger] v.contains(t) <==> has_name(ms, i) && all.contains(t) && name_ok(ms, i, t) by { assert(name_ok(ms, i, t) == name_ok(ms, i - 1, t)); }
}
spec fn wanted(lm: Seq<LabelMatcher>, s: int, e: int, row: Row) -> bool { all_accept(lm, lm.len() as int, row) && s * 1_000_000 <= row.time <= e * 1_000_000 }
spec fn conds_of(c: Seq<Cond>, lm: Seq<LabelMatcher>, j: int, t: Table) -> bool { forall|row: Row| #[trigger] row_of(row, t) ==> all_true(c, row) == all_accept(lm, j, row) }
spec fn done(v: Seq<SqlWithTable>, tb: Seq<Table>, n: int, lm: Seq<LabelMatcher>, s: int, e: int) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).sql.from@ == v[k].table.name@ && tb.take(n).contains(v[k].table)
    &&& forall|a: int, b: int| 0 <= a < v.len() && 0 <= b < v.len() && v[a].table.name@ == v[b].table.name@ ==> a == b
    &&& forall|z: int, row: Row| 0 <= z < n && #[trigger] row_of(row, tb[z]) ==> read_by(v, tb[z], row) == wanted(lm, s, e, row)
}
proof fn lemma_push(c: Seq<Cond>, x: Cond, row: Row) ensures all_true(c.push(x), row) == (all_true(c, row) && (x.f@)(row) == Some(true))
{
    let d = c.push(x);
    if all_true(d, row) { assert((d[c.len() as int].f@)(row) == Some(true)); assert forall|i: int| 0 <= i < c.len() implies ((#[trigger] c[i]).f@)(row) == Some(true) by { assert(d[i] == c[i]); } }
    if all_true(c, row) && (x.f@)(row) == Some(true) { assert forall|i: int| 0 <= i < d.len() implies ((#[trigger] d[i]).f@)(row) == Some(true) by { if i < c.len() { assert(d[i] == c[i]); } } }
}
// one more matcher: with its condition x, or with none when every row of the table is accepted
proof fn lemma_matcher(c: Seq<Cond>, d: Seq<Cond>, x: Option<Cond>, lm: Seq<LabelMatcher>, j: int, t: Table)
    requires 0 < j <= lm.len(), conds_of(c, lm, j - 1, t), x is None ==> d == c, x matches Some(y) ==> d == c.push(y),
        x is None ==> forall|row: Row| #[trigger] row_of(row, t) ==> accepts(lm[j - 1], value_of(row, lm[j - 1].name@)),
        x matches Some(y) ==> forall|row: Row| #[trigger] row_of(row, t) ==> ((y.f@)(row) == Some(true)) == accepts(lm[j - 1], value_of(row, lm[j - 1].name@)),
    ensures conds_of(d, lm, j, t)
{
    assert forall|row: Row| #[trigger] row_of(row, t) implies all_true(d, row) == all_accept(lm, j, row) by {
        assert(all_accept(lm, j, row) == (all_accept(lm, j - 1, row) && accepts(lm[j - 1], value_of(row, lm[j - 1].name@))));
        if x is Some { lemma_push(c, x->0, row); }
    }
}
// one more table, with its statement or with none
proof fn lemma_table(v: Seq<SqlWithTable>, w: Seq<SqlWithTable>, tb: Seq<Table>, n: int, lm: Seq<LabelMatcher>, s: int, e: int)
    requires by_name(tb), 0 < n <= tb.len(), done(v, tb, n - 1, lm, s, e),
        w == v || (w == v.push(w.last()) && w.len() > 0 && w.last().table == tb[n - 1] && w.last().sql.from@ == tb[n - 1].name@),
        forall|row: Row| #[trigger] row_of(row, tb[n - 1]) ==> (w != v && picks(w.last().sql, row)) == wanted(lm, s, e, row),
    ensures done(w, tb, n, lm, s, e)
{
    assert forall|t: Table| tb.take(n - 1).contains(t) implies #[trigger] tb.take(n).contains(t) && t != tb[n - 1] && t.name@ != tb[n - 1].name@ by {
        let u = tb.take(n - 1); let z = choose|z: int| 0 <= z < u.len() && #[trigger] u[z] == t; assert(tb.take(n)[z] == t); assert(tb[z] == t); assert(tb[z].name@ == tb[n - 1].name@ ==> z == n - 1);
    }
    assert(tb.take(n)[n - 1] == tb[n - 1]);
    assert(tb.take(n).contains(tb[n - 1]));
    if w != v { assert(w.len() == v.len() + 1); assert(forall|k: int| 0 <= k < v.len() ==> w[k] == v[k]); }
    assert forall|z: int, row: Row| 0 <= z < n && #[trigger] row_of(row, tb[z]) implies read_by(w, tb[z], row) == wanted(lm, s, e, row) by {
        if z < n - 1 {
            assert(tb.take(n - 1)[z] == tb[z]); assert(tb.take(n - 1).contains(tb[z]));
            if read_by(v, tb[z], row) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).table == tb[z] && picks(v[k].sql, row); assert(w[k].table == tb[z] && picks(w[k].sql, row)); assert(read_by(w, tb[z], row)); }
            if read_by(w, tb[z], row) { let k = choose|k: int| 0 <= k < w.len() && (#[trigger] w[k]).table == tb[z] && picks(w[k].sql, row); assert(k < v.len()); assert(v[k].table == tb[z] && picks(v[k].sql, row)); assert(read_by(v, tb[z], row)); }
        } else {
            if read_by(w, tb[z], row) { let k = choose|k: int| 0 <= k < w.len() && (#[trigger] w[k]).table == tb[z] && picks(w[k].sql, row); if k < v.len() { assert(w[k] == v[k]); assert(tb.take(n - 1).contains(v[k].table)); assert(false); } }
            if w != v && picks(w.last().sql, row) { let k = w.len() - 1; assert(w[k].table == tb[z] && picks(w[k].sql, row)); assert(read_by(w, tb[z], row)); }
        }
    }
}
proof fn lemma_all(v: Seq<SqlWithTable>, tb: Seq<Table>, all: Seq<Table>, q: PromQuery)
    requires by_name(all), the_tables(tb, all, q.matchers@, q.matchers@.len() as int), done(v, tb, tb.len() as int, on_labels(q.matchers@, q.matchers@.len() as int), q.start_timestamp_ms as int, q.end_timestamp_ms as int)
    ensures
        forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).sql.from@ == v[k].table.name@ && all.contains(v[k].table),
        forall|t: Table, row: Row| all.contains(t) && row_of(row, t) ==> #[trigger] read_by(v, t, row) == asked(q, t, row)
{
    assert(tb.take(tb.len() as int) =~= tb);
    assert forall|t: Table, row: Row| all.contains(t) && row_of(row, t) implies #[trigger] read_by(v, t, row) == asked(q, t, row) by {
        lemma_on_labels(q.matchers@, q.matchers@.len() as int, row);
        assert(accept_until(q.matchers@, q.matchers@.len() as int, row) == label_ok(q.matchers@, row));
        if tb.contains(t) { let z = choose|z: int| 0 <= z < tb.len() && tb[z] == t; assert(row_of(row, tb[z])); }
        else if read_by(v, t, row) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).table == t && picks(v[k].sql, row); assert(tb.contains(v[k].table)); }
    }
}
//@extract query_server/query/src/prom/remote_server.rs fn build_sql_with_table
@subst /meta: &MetaClientRef/ => meta: &Meta
@subst /let PromQuery \{[\s\S]*?\} = query;/ => let ghost q = query; let start_timestamp_ms = query.start_timestamp_ms; let end_timestamp_ms = query.end_timestamp_ms; let matchers = query.matchers;
@subst /let mut tables = Vec::new\(\);/ => let mut tables: Vec<Table> = Vec::new();
@subst /let mut label_filters = / => let mut label_filters: Vec<(Vec<u8>, Cond, bool)> = 
@subst /for m in matchers \{/ => let mut i = 0usize; #[verifier::loop_isolation(false)] while i < matchers.len() { let m = &matchers[i]; i = i + 1;
@subst /METRIC_NAME_LABEL == m\.name/ => text_is(metric_label(), text(&m.name))
@subst /std::mem::take\(&mut tables\)/ => take_all(&mut tables)
@subst /m\.r#type\(\)/ => m.kind()
@subst /let table = meta\s*\.get_tskv_table_schema\(ctx\.database\(\), table_name\)\s*\.context\(MetaSnafu\)\?\s*\.ok_or_else\(\|\| MetaError::TableNotFound \{\s*table: table_name\.to_string\(\),\s*\}\)\s*\.context\(MetaSnafu\)\?;/ => let table = meta.table(ctx.database(), table_name)?;
@subst /Regex::new\(&anchored\(&m\.value\)\)\.map_err\([\s\S]*?\}\s*\}\)\?/ => pattern_of(&anchored(text(&m.value)))?
@subst /tables = meta\s*\.list_tables\(ctx\.database\(\)\)\s*\.context\(MetaSnafu\)\?\s*\.iter\(\)\s*\.filter\(\|e\| pattern\.is_match\(e\)\)\s*\.flat_map\(\|table_name\| \{\s*if let Ok\(s\) = meta\.get_tskv_table_schema\(ctx\.database\(\), table_name\) \{\s*s\s*\} else \{[\s\S]*?None\s*\}\s*\}\)\s*\.collect::<Vec<_>>\(\);/ => tables = meta.matching(ctx.database(), &pattern)?;
@subst /return Err\(QueryError::InvalidRemoteReadReq \{[\s\S]*?\}\);/ => return Err(QueryError {});
@subst /tables\.retain\(\|table\| accepted_before\.iter\(\)\.any\(\|e\| e\.name == table\.name\)\);/ => retain_named(&mut tables, &accepted_before);
@subst /label_filter\(m\.kind\(\), &m\.name, &m\.value\)/ => label_filter(m.kind(), text(&m.name), text(&m.value))
@subst /label_filters\.push\(\(m\.name, / => label_filters.push((copy(&m.name), 
@subst /let mut result = / => let mut result: Vec<SqlWithTable> = 
@subst /'tables: for table in tables \{/ => let mut ti = 0usize; #[verifier::loop_isolation(false)] 'tables: while ti < tables.len() { let table = copy_table(&tables[ti]); ti = ti + 1;
@subst /let mut filters = / => let mut filters: Vec<Cond> = 
@subst /Vec::with_capacity\([^;]*\);/ => Vec::new();
@subst /for \(name, filter, accepts_empty\) in &label_filters \{/ => let mut j = 0usize; #[verifier::loop_isolation(false)] while j < label_filters.len() { let name = &label_filters[j].0; let filter = &label_filters[j].1; let accepts_empty = &label_filters[j].2; j = j + 1;
@subst /table\s*\.column\(name\)\s*\.is_some_and\(\|column\| column\.column_type\.is_tag\(\)\)/ => has_label(&table, name)
@subst /format!\("\(\{\} OR \{\} IS NULL\)", filter, ident\(name\)\)/ => or_null(filter, ident(text(name)))
@subst /filter\.clone\(\)/ => copy_cond(filter)
@subst /format!\(\s*"time >= \{\}",/ => time_ge(
@subst /format!\(\s*"time <= \{\}",/ => time_le(
@subst /(\w+)\.saturating_mul\(/ => sat_mul(\1, 
@subst /format!\(\s*"SELECT \* FROM \{\} WHERE \{\} order by time",/ => select(
@subst /ident\(&table\.name\)/ => ident(text(&table.name))
@subst /filters\.join\(" AND "\)/ => &filters
@ret r
@spec
    requires by_name(meta.all())
    ensures
        r matches Ok(v) ==> {
            // every table by itself, each from its own name, once
            &&& forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k]).sql.from@ == v@[k].table.name@ && meta.all().contains(v@[k].table)
            &&& forall|a: int, b: int| 0 <= a < v@.len() && 0 <= b < v@.len() && v@[a].table.name@ == v@[b].table.name@ ==> a == b
            // a row is read if and only if the query asks for it
            &&& forall|t: Table, row: Row| meta.all().contains(t) && row_of(row, t) ==> #[trigger] read_by(v@, t, row) == asked(query, t, row)
        },
        r is Err ==> may_fail(query.matchers@, *meta),
@at start
    proof { lemma_unquoted(34); }
@loop 0
    invariant i <= matchers@.len(), matchers@ == q.matchers@, by_name(meta.all()), is_named == has_name(matchers@, i as int), the_tables(tables@, meta.all(), matchers@, i as int),
        filters_of(label_filters@, on_labels(matchers@, i as int))
    decreases matchers@.len() - i
@at loop-start 0
    let ghost b0 = tables@; let ghost f0 = label_filters@; let ghost n0 = is_named;
    proof { assert(refused(matchers@[i as int], *meta) ==> may_fail(matchers@, *meta)); }
@at after /let table = meta\.table\(ctx\.database\(\), table_name\)\?;/
    let ghost one = table;
@at after /tables = vec!\[table\];/
    proof { assert(tables@ =~= seq![one]); lemma_one(tables@, meta.all(), matchers@[i - 1]); }
@at after /tables = meta\.matching\(ctx\.database\(\), &pattern\)\?;/
    proof { lemma_many(tables@, meta.all(), matchers@[i - 1], pattern@); }
@at before /if is_named \{/
    let ghost t1 = tables@;
@at after /is_named = true;/
    proof { lemma_step(meta.all(), matchers@, i as int, b0, t1, tables@); }
@at before /let \(filter, accepts_empty\) = /
    proof { lemma_other(meta.all(), matchers@, i as int, tables@); }
@at before /let mut ti = 0usize;/
    let ghost lm = on_labels(matchers@, matchers@.len() as int); let ghost qs = start_timestamp_ms as int; let ghost qe = end_timestamp_ms as int;
@loop 1
    invariant ti <= tables@.len(), done(result@, tables@, ti as int, lm, qs, qe)
    decreases tables@.len() - ti
@at loop-start 1
    let ghost r0 = result@;
@at before /let mut j = 0usize;/
    proof { assert(tables@[ti - 1] == table); }
@loop 2
    invariant j <= label_filters@.len(), conds_of(filters@, lm, j as int, table)
    decreases label_filters@.len() - j
@at loop-start 2
    let ghost c0 = filters@;
@at before /let is_label = /
    let ghost me = lm[j - 1];
    proof { assert(filter_of(label_filters@[j - 1], me)); }
@at before /match \(is_label, \*accepts_empty\)/
    proof {
        if !is_label { assert forall|row: Row| #[trigger] row_of(row, table) implies !row.labels.contains_key(me.name@) by { if row.labels.contains_key(me.name@) { assert(table.labels@.contains(me.name@)); } } }
        if !is_label && !*accepts_empty {
            assert forall|row: Row| #[trigger] row_of(row, table) implies !wanted(lm, qs, qe, row) by { assert(!accepts(lm[j - 1], value_of(row, lm[j - 1].name@))); assert(!all_accept(lm, lm.len() as int, row)); }
            lemma_table(r0, r0, tables@, ti as int, lm, qs, qe);
        }
    }
@at loop-end 2
    proof {
        let x: Option<Cond> = if is_label { Some(filters@.last()) } else { None };
        if is_label { assert(filters@ =~= c0.push(filters@.last())); }
        lemma_matcher(c0, filters@, x, lm, j as int, table);
    }
@at after-loop 2
    let ghost c1 = filters@;
@at before /result\.push/
    proof {
        assert forall|row: Row| #[trigger] row_of(row, table) implies all_true(filters@, row) == wanted(lm, qs, qe, row) by {
            let n = c1.len() as int; assert(filters@ =~= c1.push(filters@[n]).push(filters@[n + 1]));
            lemma_push(c1.push(filters@[n]), filters@[n + 1], row); lemma_push(c1, filters@[n], row);
        }
    }
@at loop-end 1
    proof { assert(result@ =~= r0.push(result@.last())); assert(result@.len() == r0.len() + 1); lemma_table(r0, result@, tables@, ti as int, lm, qs, qe); }
@at after-loop 1
    proof { lemma_all(result@, tables@, meta.all(), q); }
@end
fn main() {}
}
