use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {
global size_of usize == 8;
// ---- what an expression is worth: for a row of time t, that stands in window w (after expand) ----
enum Val { I(int), B(bool), W(int, int) }
struct Expr { g: Ghost<spec_fn(int, Val) -> Val> }
spec fn int_of(v: Val) -> int { if let Val::I(k) = v { k } else { 0 } }
spec fn truth(v: Val) -> bool { v == Val::B(true) }
// the remainder of machine integers: the sign of the first
spec fn rem(a: int, b: int) -> int { if a >= 0 { a % b } else { -((-a) % b) } }
impl Expr {
    spec fn at(self, t: int, w: Val) -> Val { (self.g@)(t, w) }
    spec fn i(self, t: int, w: Val) -> int { int_of(self.at(t, w)) }
    #[verifier::external_body] fn clone(&self) -> (r: Expr) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] fn lit(k: i64) -> (r: Expr) ensures forall|t: int, w: Val| #[trigger] r.at(t, w) == Val::I(k as int) { unimplemented!() }
#[verifier::external_body] fn cast(e: Expr) -> (r: Expr) ensures forall|t: int, w: Val| #[trigger] r.at(t, w) == e.at(t, w) { unimplemented!() }
// what an operator gives (machine integers that do not overflow)
enum Operator { Plus, Minus, Multiply, Modulo, Divide, GtEq, Lt, Gt, LtEq }
spec fn oper(o: Operator, a: int, b: int) -> Val { match o { Operator::Plus => Val::I(a + b), Operator::Minus => Val::I(a - b), Operator::Multiply => Val::I(a * b), Operator::Modulo => Val::I(rem(a, b)), Operator::Divide => Val::I(quot(a, b)), Operator::GtEq => Val::B(a >= b), Operator::Lt => Val::B(a < b), Operator::Gt => Val::B(a > b), Operator::LtEq => Val::B(a <= b) } }
spec fn quot(a: int, b: int) -> int;
#[verifier::external_body] fn binary_expr(a: Expr, o: Operator, b: Expr) -> (r: Expr) ensures forall|t: int, w: Val| #[trigger] r.at(t, w) == oper(o, a.i(t, w), b.i(t, w)) { unimplemented!() }
#[verifier::external_body] fn not_null(e: Expr) -> (r: Expr) ensures forall|t: int, w: Val| #[trigger] r.at(t, w) == Val::B(true) { unimplemented!() }
//@extract query_server/query/src/extension/expr/expr_fn.rs plus
@ret r
@spec
    ensures forall|t: int, w: Val| #[trigger] r.at(t, w) == Val::I(left.i(t, w) + right.i(t, w))
@end
//@extract query_server/query/src/extension/expr/expr_fn.rs minus
@ret r
@spec
    ensures forall|t: int, w: Val| #[trigger] r.at(t, w) == Val::I(left.i(t, w) - right.i(t, w))
@end
//@extract query_server/query/src/extension/expr/expr_fn.rs multiply
@ret r
@spec
    ensures forall|t: int, w: Val| #[trigger] r.at(t, w) == Val::I(left.i(t, w) * right.i(t, w))
@end
//@extract query_server/query/src/extension/expr/expr_fn.rs modulo
@ret r
@spec
    ensures forall|t: int, w: Val| #[trigger] r.at(t, w) == Val::I(rem(left.i(t, w), right.i(t, w)))
@end
//@extract query_server/query/src/extension/expr/expr_fn.rs ge
@ret r
@spec
    ensures forall|t: int, w: Val| #[trigger] r.at(t, w) == Val::B(left.i(t, w) >= right.i(t, w))
@end
//@extract query_server/query/src/extension/expr/expr_fn.rs lt
@ret r
@spec
    ensures forall|t: int, w: Val| #[trigger] r.at(t, w) == Val::B(left.i(t, w) < right.i(t, w))
@end
//@extract query_server/query/src/extension/expr/expr_fn.rs is_not_null
@subst /Expr::IsNotNull\(Box::new\((\w+)\)\)/ => not_null(\1)
@ret r
@spec
    ensures forall|t: int, w: Val| #[trigger] r.at(t, w) == Val::B(true)
@end
#[verifier::external_body] fn and(a: Expr, b: Expr) -> (r: Expr) ensures forall|t: int, w: Val| #[trigger] r.at(t, w) == Val::B(truth(a.at(t, w)) && truth(b.at(t, w))) { unimplemented!() }
#[derive(Clone, Copy)] enum Part { Start, End }
#[verifier::external_body] fn part(e: Expr, p: Part) -> (r: Expr) ensures forall|t: int, w: Val| #[trigger] r.at(t, w) == (match e.at(t, w) { Val::W(a, b) => Val::I(if p is Start { a } else { b }), _ => Val::I(0) }) { unimplemented!() }
#[verifier::external_body] fn named(v: Vec<(Part, Expr)>) -> (r: Expr) requires v@.len() == 2, v@[0].0 is Start, v@[1].0 is End ensures forall|t: int, w: Val| #[trigger] r.at(t, w) == Val::W(v@[0].1.i(t, w), v@[1].1.i(t, w)) { unimplemented!() }
// the column the windows stand in
#[verifier::external_body] fn window_col() -> (r: Expr) ensures forall|t: int, w: Val| #[trigger] r.at(t, w) == w { unimplemented!() }
struct Duration { n: u128 }
impl Duration {
    fn as_nanos(&self) -> (r: u128) ensures r == self.n { self.n }
    fn as_millis(&self) -> (r: u128) ensures r == self.n / 1000000 { self.n / 1000000 }
    fn as_secs(&self) -> u64 { 0 }
    fn cp(&self) -> (r: Duration) ensures r == *self { Duration { n: self.n } }
}
//@extract query_server/query/src/extension/analyse/transform_time_window.rs struct TimeWindow
@subst /window_alias: String/ => window_alias: u64
@end
// ---- the windows there are: they start every s from s0 on, both ways ----
spec fn aligned(a: int, s0: int, s: int) -> bool { (a - s0) % s == 0 }
spec fn holds(a: int, w: int, t: int) -> bool { a <= t < a + w }
spec fn w_(x: TimeWindow) -> int { x.window_duration.n as int }
spec fn s_(x: TimeWindow) -> int { x.slide_duration.n as int }
spec fn s0_(x: TimeWindow) -> int { x.start_time.i(0, Val::I(0)) }
// a window whose length and slide are those a user may ask for; the time is the time, the start a constant
spec fn fair(x: TimeWindow) -> bool {
    &&& 0 < w_(x) <= 365 * 86400 * 1000000000 && 0 < s_(x) <= 365 * 86400 * 1000000000
    &&& forall|t: int, w: Val| #[trigger] x.time_column.at(t, w) == Val::I(t)
    &&& forall|t: int, w: Val| #[trigger] x.start_time.at(t, w) == Val::I(s0_(x))
}
// the last window start at or before t
spec fn last(t: int, s0: int, s: int) -> int { t - (t - s0) % s }
spec fn nth(e: Expr, x: TimeWindow, i: int) -> bool { forall|t: int, w: Val| #[trigger] e.at(t, w) == nth_(x, i, t) }
spec fn nth_(x: TimeWindow, i: int, t: int) -> Val { Val::W(last(t, s0_(x), s_(x)) - i * s_(x), last(t, s0_(x), s_(x)) - i * s_(x) + w_(x)) }
// however the remainder is taken
proof fn lemma_rem(t: int, s0: int, s: int) requires s > 0 ensures
    rem(rem(t - rem(s0, s), s) + s, s) == (t - s0) % s, (t - rem(s0, s)) % s == (t - s0) % s, 0 <= (t - s0) % s < s {
    lemma_trunc(s0, s); let d = rem(s0, s); lemma_trunc(t - d, s); let r = rem(t - d, s);
    let k = choose|k: int| s0 - d == #[trigger] (k * s); let j = choose|j: int| (t - d) - r == #[trigger] (j * s);
    assert((j - 1) * s == j * s - s) by (nonlinear_arith); assert((t - d) - (t - s0) == k * s); lemma_same(t - d, t - s0, k, s); lemma_same(t - d, r + s, j - 1, s);
    assert(r + s >= 0); assert((t - s0) % s >= 0 && (t - s0) % s < s) by (nonlinear_arith) requires s > 0;
}
proof fn lemma_trunc(a: int, s: int) requires s > 0 ensures exists|k: int| a - rem(a, s) == #[trigger] (k * s), -s < rem(a, s) < s {
    if a >= 0 { lemma_fundamental_div_mod(a, s); assert(a - rem(a, s) == (a / s) * s) by (nonlinear_arith) requires rem(a, s) == a % s, a == s * (a / s) + a % s; assert(0 <= a % s < s) by (nonlinear_arith) requires s > 0; }
    else { let b = -a; lemma_fundamental_div_mod(b, s); let q = -(b / s); assert(a - rem(a, s) == q * s) by (nonlinear_arith) requires rem(a, s) == -(b % s), b == s * (b / s) + b % s, b == -a, q == -(b / s); assert(0 <= b % s < s) by (nonlinear_arith) requires s > 0; }
}
proof fn lemma_same(a: int, b: int, k: int, s: int) requires s > 0, a - b == k * s ensures a % s == b % s { lemma_mod_multiples_vanish(k, b, s); assert(s * k + b == a) by (nonlinear_arith) requires a - b == k * s; }
// the windows that hold t are the last, and the ones before it as long as they reach t
proof fn lemma_cover(t: int, s0: int, s: int, w: int, a: int) requires s > 0, w > 0 ensures
    aligned(last(t, s0, s), s0, s), last(t, s0, s) <= t < last(t, s0, s) + s,
    aligned(a, s0, s) && holds(a, w, t) ==> exists|i: int| 0 <= i && i * s < w && a == last(t, s0, s) - #[trigger] (i * s) {
    let l = last(t, s0, s); let q = (t - s0) / s; lemma_fundamental_div_mod(t - s0, s); assert(0 <= (t - s0) % s < s) by (nonlinear_arith) requires s > 0;
    assert(l - s0 == s * q + 0); lemma_fundamental_div_mod_converse(l - s0, s, q, 0);
    if aligned(a, s0, s) && holds(a, w, t) {
        let p = (a - s0) / s; lemma_fundamental_div_mod(a - s0, s); let i = q - p;
        assert(l - a == i * s) by (nonlinear_arith) requires l - s0 == s * q, a - s0 == s * p, i == q - p;
        assert(i >= 0) by (nonlinear_arith) requires l - a == i * s, a <= t, t < l + s, s > 0;
    }
}
proof fn lemma_back(t: int, s0: int, s: int, i: int) requires s > 0 ensures aligned(last(t, s0, s) - i * s, s0, s) { lemma_cover(t, s0, s, 1, t); let l = last(t, s0, s); let q = (l - s0) / s; lemma_fundamental_div_mod(l - s0, s); assert(l - i * s - s0 == s * (q - i) + 0) by (nonlinear_arith) requires l - s0 == s * q; lemma_fundamental_div_mod_converse(l - i * s - s0, s, q - i, 0); }
//@extract query_server/query/src/extension/analyse/transform_time_window.rs valid_duration
@subst /Result<Duration, QueryError>/ => Result<Duration, u64>
@subst /QueryError::InvalidTimeWindowParam \{[\s\S]*?\}\);/ => dur.as_secs());
@subst /365 \* DAY/ => 365u64 * 86400000
@ret r
@spec
    ensures r matches Ok(d) ==> d == dur && 0 < d.n <= 365 * 86400 * 1000000000 + 999999
@end
//@extract query_server/query/src/extension/analyse/transform_time_window.rs make_window_expr
@subst /let ns_type = [^;]*;/ =>
@subst /cast\((\w+)\.clone\(\), ns_type\.clone\(\)\)/ => cast(\1.clone())
@subst /cast\((\w+), ns_type(\.clone\(\))?\)/ => cast(\1)
@subst /cast\((\w+(?:\.clone\(\))?), DataType::Int64\)/ => cast(\1)
@subst /WINDOW_START\.to_string\(\)/ => Part::Start
@subst /WINDOW_END\.to_string\(\)/ => Part::End
@subst /Expr::NamedStruct\(Box::new\((\w+)\)\)\.alias\(WINDOW_COL_NAME\)/ => named(\1)
@ret r
@spec
    requires fair(*window)
    ensures nth(r, *window, i as int)
@at tail
    proof { assert forall|t: int, w: Val| #[trigger] window_start.at(t, w) == Val::I(last(t, s0_(*window), s_(*window)) - i * s_(*window)) by { lemma_rem(t, s0_(*window), s_(*window)); } }
@end
// ---- the plan: for each row, the windows it goes to ----
struct DataFusionError {}
struct Plan { g: Ghost<spec_fn(int) -> Seq<Val>> }
impl Plan { spec fn of(self, t: int) -> Seq<Val> { (self.g@)(t) } }
struct LogicalPlan {}
struct LogicalPlanBuilder { g: Ghost<spec_fn(int) -> Seq<Val>> }
spec fn first_of(p: Seq<Seq<Expr>>, t: int) -> Seq<Val> { p.map_values(|e: Seq<Expr>| e[0].at(t, Val::I(0))) }
spec fn deep(v: Seq<Vec<Expr>>) -> Seq<Seq<Expr>> { v.map_values(|e: Vec<Expr>| e@) }
spec fn kept(f: Expr, t: int, v: Seq<Val>) -> Seq<Val> { v.filter(|w: Val| truth(f.at(t, w))) }
impl LogicalPlanBuilder {
    spec fn of(self, t: int) -> Seq<Val> { (self.g@)(t) }
    // every row once, in no window yet
    #[verifier::external_body] fn from(c: LogicalPlan) -> (r: LogicalPlanBuilder) ensures forall|t: int| #[trigger] r.of(t) == seq![Val::I(0)] { unimplemented!() }
    #[verifier::external_body] fn expand(self, p: Vec<Vec<Expr>>) -> (r: Result<LogicalPlanBuilder, DataFusionError>) requires forall|i: int| 0 <= i < p@.len() ==> (#[trigger] p@[i])@.len() > 0, forall|t: int| #[trigger] self.of(t) == seq![Val::I(0)] ensures r matches Ok(b) ==> forall|t: int| #[trigger] b.of(t) == first_of(deep(p@), t) { unimplemented!() }
    #[verifier::external_body] fn project(self, p: Vec<Expr>) -> (r: Result<LogicalPlanBuilder, DataFusionError>) requires p@.len() > 0 ensures r matches Ok(b) ==> forall|t: int| #[trigger] b.of(t) == self.of(t).map_values(|w: Val| p@[0].at(t, w)) { unimplemented!() }
    #[verifier::external_body] fn filter(self, f: Expr) -> (r: Result<LogicalPlanBuilder, DataFusionError>) ensures r matches Ok(b) ==> forall|t: int| #[trigger] b.of(t) == kept(f, t, self.of(t)) { unimplemented!() }
    #[verifier::external_body] fn build(self) -> (r: Result<Plan, DataFusionError>) ensures r matches Ok(b) ==> forall|t: int| #[trigger] b.of(t) == self.of(t) { unimplemented!() }
}
// each window that holds t, once
spec fn once(v: Seq<Val>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] != #[trigger] v[j] }
spec fn exact(x: TimeWindow, v: Seq<Val>, t: int) -> bool { covers(x, v, t) && forall|k: int| 0 <= k < v.len() ==> window_of(x, #[trigger] v[k]) && holds(v[k]->W_0, w_(x), t) }
spec fn window_of(x: TimeWindow, v: Val) -> bool { v is W && v->W_1 == v->W_0 + w_(x) && aligned(v->W_0, s0_(x), s_(x)) }
spec fn covers(x: TimeWindow, v: Seq<Val>, t: int) -> bool { once(v) && forall|a: int| aligned(a, s0_(x), s_(x)) && holds(a, w_(x), t) ==> v.contains(#[trigger] win(x, a)) }
spec fn win(x: TimeWindow, a: int) -> Val { Val::W(a, a + w_(x)) }
#[verifier::external_body] fn extend(v: &mut Vec<Expr>, w: Vec<Expr>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
#[verifier::external_body] fn clone_all(w: &Vec<Expr>) -> (r: Vec<Expr>) ensures r@ == w@ { unimplemented!() }
//@extract query_server/query/src/extension/analyse/transform_time_window.rs build_tumbling_window_plan
@subst /Result<LogicalPlan>/ => Result<Plan, DataFusionError>
@subst /window_projection\.extend\((\w+)\);/ => extend(&mut window_projection, \1);
@ret r
@spec
    requires fair(*window), w_(*window) == s_(*window), child_project_exprs@.len() < 0x1_0000_0000
    ensures r matches Ok(p) ==> forall|t: int| exact(*window, #[trigger] p.of(t), t)
@at before /let project_node/
    let ghost we = window_projection@[0];
@at after /\.build\(\)\?;/
    proof { assert forall|t: int| exact(*window, #[trigger] project_node.of(t), t) by {
        let x = *window; let v = project_node.of(t); assert(kept(filter, t, seq![Val::I(0)]) =~= seq![Val::I(0)]) by { lemma_keep_all(filter, t, seq![Val::I(0)]); }
        lemma_cover(t, s0_(x), s_(x), w_(x), t); lemma_back(t, s0_(x), s_(x), 0); assert(0 * s_(x) == 0) by (nonlinear_arith); assert(v[0] == nth_(x, 0, t));
        assert forall|a: int| aligned(a, s0_(x), s_(x)) && holds(a, w_(x), t) implies v.contains(#[trigger] win(x, a)) by { lemma_cover(t, s0_(x), s_(x), w_(x), a); let i = choose|i: int| 0 <= i && i * s_(x) < w_(x) && a == last(t, s0_(x), s_(x)) - #[trigger] (i * s_(x)); assert(i == 0) by (nonlinear_arith) requires 0 <= i, i * s_(x) < w_(x), w_(x) == s_(x), s_(x) > 0; assert(v[0] == win(x, a)); }
    } }
@end
proof fn lemma_keep_all(f: Expr, t: int, v: Seq<Val>) requires forall|k: int| 0 <= k < v.len() ==> truth(f.at(t, #[trigger] v[k])) ensures kept(f, t, v) == v decreases v.len() {
    reveal(Seq::filter); let p = |w: Val| truth(f.at(t, w)); if v.len() > 0 { let u = v.drop_last(); assert forall|k: int| 0 <= k < u.len() implies truth(f.at(t, #[trigger] u[k])) by { assert(u[k] == v[k]); } lemma_keep_all(f, t, u); assert(p(v.last())) by { assert(truth(f.at(t, v[v.len() - 1]))); } assert(u.push(v.last()) =~= v); }
    assert(kept(f, t, v) =~= v);
}
// the first n windows back from the last
spec fn back(x: TimeWindow, v: Seq<Val>, t: int) -> bool { forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] == nth_(x, k, t) }
proof fn lemma_back_once(x: TimeWindow, v: Seq<Val>, t: int) requires fair(x), back(x, v, t) ensures once(v), forall|k: int| 0 <= k < v.len() ==> window_of(x, #[trigger] v[k]) {
    let s = s_(x);
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies #[trigger] v[i] != #[trigger] v[j] by { assert(i * s < j * s) by (nonlinear_arith) requires i < j, s > 0; }
    assert forall|k: int| 0 <= k < v.len() implies window_of(x, #[trigger] v[k]) by { lemma_back(t, s0_(x), s, k); }
}
// as many as it takes
proof fn lemma_enough(x: TimeWindow, v: Seq<Val>, t: int) requires fair(x), back(x, v, t), v.len() * s_(x) >= w_(x) ensures covers(x, v, t) {
    lemma_back_once(x, v, t); let s = s_(x); let w = w_(x); let n = v.len() as int;
    assert forall|a: int| aligned(a, s0_(x), s) && holds(a, w, t) implies v.contains(#[trigger] win(x, a)) by {
        lemma_cover(t, s0_(x), s, w, a); let i = choose|i: int| 0 <= i && i * s < w && a == last(t, s0_(x), s) - #[trigger] (i * s);
        assert(i < n) by (nonlinear_arith) requires i * s < w, n * s >= w, s > 0; assert(v[i] == win(x, a));
    }
}
// and no more
proof fn lemma_even(x: TimeWindow, v: Seq<Val>, t: int) requires fair(x), back(x, v, t), v.len() * s_(x) == w_(x) ensures exact(x, v, t) {
    lemma_enough(x, v, t); lemma_back_once(x, v, t); let s = s_(x); let w = w_(x); let n = v.len() as int; lemma_cover(t, s0_(x), s, w, t);
    assert forall|k: int| 0 <= k < n implies window_of(x, #[trigger] v[k]) && holds(v[k]->W_0, w, t) by { assert(v[k] == nth_(x, k, t)); assert(0 <= k * s && k * s + s <= w) by (nonlinear_arith) requires 0 <= k < n, n * s == w, s > 0; }
}
// what is kept of them
proof fn lemma_kept(x: TimeWindow, f: Expr, v: Seq<Val>, t: int) requires fair(x), back(x, v, t), covers(x, v, t), forall|k: int| 0 <= k < v.len() && holds((#[trigger] v[k])->W_0, w_(x), t) ==> truth(f.at(t, v[k])) ensures covers(x, kept(f, t, v), t), forall|k: int| 0 <= k < kept(f, t, v).len() ==> window_of(x, #[trigger] kept(f, t, v)[k]) && truth(f.at(t, kept(f, t, v)[k])) {
    lemma_back_once(x, v, t); let u = kept(f, t, v); let p = |w: Val| truth(f.at(t, w)); lemma_filter(f, t, v);
    assert forall|a: int| aligned(a, s0_(x), s_(x)) && holds(a, w_(x), t) implies u.contains(#[trigger] win(x, a)) by { assert(v.contains(win(x, a))); let k = choose|k: int| 0 <= k < v.len() && v[k] == win(x, a); assert(holds(v[k]->W_0, w_(x), t)); }
    assert forall|k: int| 0 <= k < u.len() implies window_of(x, #[trigger] u[k]) && truth(f.at(t, u[k])) by { assert(u.contains(u[k])); let j = choose|j: int| 0 <= j < v.len() && v[j] == u[k]; assert(window_of(x, v[j])); }
}
proof fn lemma_filter(f: Expr, t: int, v: Seq<Val>) requires once(v) ensures once(kept(f, t, v)), forall|w: Val| #[trigger] kept(f, t, v).contains(w) <==> v.contains(w) && truth(f.at(t, w)) decreases v.len() {
    reveal(Seq::filter); let p = |w: Val| truth(f.at(t, w)); let u = kept(f, t, v);
    if v.len() == 0 { assert(u =~= Seq::<Val>::empty()); } else {
        let h = v.drop_last(); let z = v.last(); let uh = kept(f, t, h); assert(once(h)) by { assert forall|i: int, j: int| 0 <= i < j < h.len() implies #[trigger] h[i] != #[trigger] h[j] by { assert(v[i] != v[j]); } } lemma_filter(f, t, h);
        assert(u == (if p(z) { uh.push(z) } else { uh }));
        assert forall|w: Val| v.contains(w) <==> h.contains(w) || w == z by { if v.contains(w) { let i = choose|i: int| 0 <= i < v.len() && v[i] == w; if i < h.len() { assert(h[i] == w); } } if h.contains(w) { let i = choose|i: int| 0 <= i < h.len() && h[i] == w; assert(v[i] == w); } if w == z { assert(v[v.len() - 1] == w); } }
        assert(!h.contains(z)) by { if h.contains(z) { let i = choose|i: int| 0 <= i < h.len() && h[i] == z; assert(v[i] != v[v.len() - 1]); } }
        if p(z) {
            assert forall|w: Val| #[trigger] u.contains(w) <==> uh.contains(w) || w == z by { if u.contains(w) { let i = choose|i: int| 0 <= i < u.len() && u[i] == w; if i < uh.len() { assert(uh[i] == w); } } if uh.contains(w) { let i = choose|i: int| 0 <= i < uh.len() && uh[i] == w; assert(u[i] == w); } if w == z { assert(u[uh.len() as int] == w); } }
            assert forall|i: int, j: int| 0 <= i < j < u.len() implies #[trigger] u[i] != #[trigger] u[j] by { assert(u[i] == uh[i]); assert(uh.contains(uh[i])); if j < uh.len() { assert(u[j] == uh[j]); } }
        }
    }
}
proof fn lemma_ceil(w: int, s: int) requires w > 0, s > 0 ensures ((w + s - 1) / s) * s >= w, w % s == 0 ==> ((w + s - 1) / s) * s == w, w < s ==> (w + s - 1) / s == 1, (w + s - 1) / s >= 1, (w + s - 1) / s <= w, (w + s - 1) / s == w / s + if w % s == 0 { 0int } else { 1int } {
    let n = (w + s - 1) / s; lemma_fundamental_div_mod(w + s - 1, s); assert(0 <= (w + s - 1) % s < s) by (nonlinear_arith) requires s > 0; assert(s * n == n * s) by (nonlinear_arith);
    assert(n * s > w - 1); assert(n >= 1) by (nonlinear_arith) requires n * s > w - 1, w > 0, s > 0; assert(n <= w) by (nonlinear_arith) requires n * s <= w + s - 1, w >= 1, s >= 1, n >= 1;
    if w % s == 0 { let q = w / s; lemma_fundamental_div_mod(w, s); assert(n == q) by (nonlinear_arith) requires w == s * q, n * s >= w, n * s <= w + s - 1, s > 0; assert(n * s == w) by (nonlinear_arith) requires n == q, w == s * q; }
    else { let q = w / s; lemma_fundamental_div_mod(w, s); assert(0 < w % s < s); assert(n == q + 1) by (nonlinear_arith) requires w == s * q + w % s, 0 < w % s < s, n * s >= w, n * s <= w + s - 1, s > 0; }
    if w < s { assert(n == 1) by (nonlinear_arith) requires n * s <= w + s - 1, w < s, n >= 1, s > 0; }
}
//@extract query_server/query/src/extension/analyse/transform_time_window.rs build_sliding_window_plan
@subst /Result<LogicalPlan>/ => Result<Plan, DataFusionError>
@subst /DataFusionError::Plan\(format!\([\s\S]*?\)\)\);/ => DataFusionError {});
@subst /let windows = \(0\.\.overlapping_windows\)\s*\.map\(\|i\| make_window_expr\(i as i64, window\)\)\s*\.collect::<Vec<_>>\(\);/ => let mut windows: Vec<Expr> = Vec::new(); let mut wi: u128 = 0; while wi < overlapping_windows { let i = wi; wi = wi + 1; windows.push(make_window_expr(i as i64, window)); }
@subst /Box::new\((windows\[0\]\.clone\(\))\)/ => \1
@subst /Expr::GetIndexedField\(GetIndexedField::new\(\s*(\w+(?:\.clone\(\))?),\s*ScalarValue::Utf8\(Some\(WINDOW_START\.to_string\(\)\)\),\s*\)\)/ => part(\1, Part::Start)
@subst /Expr::GetIndexedField\(GetIndexedField::new\(\s*(\w+(?:\.clone\(\))?),\s*ScalarValue::Utf8\(Some\(WINDOW_END\.to_string\(\)\)\),\s*\)\)/ => part(\1, Part::End)
@subst /Box::new\(col\(WINDOW_COL_NAME\)\)/ => window_col()
@subst /let projections = windows\s*\.into_iter\(\)\s*\.map\(\|e\| \{([\s\S]*?)\n\s*result\s*\}\)\s*\.collect::<Vec<Vec<_>>>\(\);/ => let mut projections: Vec<Vec<Expr>> = Vec::new(); let mut pi: usize = 0; while pi < windows.len() { let e = windows[pi].clone(); pi = pi + 1; \1 projections.push(result); }
@subst /result\.extend\((\w+)\.clone\(\)\);/ => extend(&mut result, clone_all(&\1));
@ret r
@spec
    requires fair(*window), child_project_exprs@.len() < 0x1_0000_0000
    ensures r matches Ok(p) ==> forall|t: int| covers(*window, #[trigger] p.of(t), t), r matches Ok(p) ==> forall|t: int| back(*window, #[trigger] p.of(t), t) || exact(*window, p.of(t), t), w_(*window) % s_(*window) == 0 || w_(*window) < s_(*window) ==> (r matches Ok(p) ==> forall|t: int| exact(*window, #[trigger] p.of(t), t))
@at start
    proof { lemma_ceil(w_(*window), s_(*window)); }
@loop 0
    invariant wi <= overlapping_windows, overlapping_windows <= 100, windows@.len() == wi, fair(*window), forall|k: int| 0 <= k < wi ==> nth(#[trigger] windows@[k], *window, k)
    decreases overlapping_windows - wi
@loop 1
    invariant pi <= windows@.len(), child_project_exprs@.len() < 0x1_0000_0000, fair(*window), forall|k: int| 0 <= k < windows@.len() ==> nth(#[trigger] windows@[k], *window, k), projections@.len() == pi, forall|k: int| 0 <= k < pi ==> (#[trigger] projections@[k])@.len() > 0 && nth(projections@[k]@[0], *window, k)
    decreases windows@.len() - pi
@at after /\.build\(\)\?;/
    proof {
        let x = *window; let n = overlapping_windows as int; let pr = deep(projections@);
        assert forall|t: int| covers(x, #[trigger] expand_node.of(t), t) && (back(x, expand_node.of(t), t) || exact(x, expand_node.of(t), t)) && (w_(x) % s_(x) == 0 || w_(x) < s_(x) ==> exact(x, expand_node.of(t), t)) by {
            let v = first_of(pr, t); let u = kept(filter, t, v); assert(u == expand_node.of(t)); assert(v.len() == n);
            assert forall|k: int| 0 <= k < v.len() implies #[trigger] v[k] == nth_(x, k, t) by { assert(nth(projections@[k]@[0], x, k)); assert(pr[k] == projections@[k]@); }
            lemma_enough(x, v, t); if w_(x) % s_(x) == 0 { lemma_even(x, v, t); }
            lemma_cover(t, s0_(x), s_(x), w_(x), t); assert(0 * s_(x) == 0) by (nonlinear_arith);
            assert(v[0] == nth_(x, 0, t)); lemma_kept(x, filter, v, t);
            if forall|k: int| 0 <= k < v.len() ==> truth(filter.at(t, #[trigger] v[k])) { lemma_keep_all(filter, t, v); }
        }
    }
@end
fn main() {}
}
