//@prelude
mod tw {
use std::time::Duration;
pub const WINDOW_COL_NAME: &str = "window"; pub const WINDOW_START: &str = "start"; pub const WINDOW_END: &str = "end"; const DAY: i64 = 86_400_000;
// ---- stand-ins: expressions, and what they are worth for a row ----
#[derive(Debug, Clone, Copy, PartialEq)] pub enum Operator { Plus, Minus, Multiply, Modulo, Divide, GtEq, Lt, Gt, LtEq, And, Eq }
#[derive(Debug, Clone, Copy, PartialEq)] pub enum TimeUnit { Nanosecond } #[derive(Debug, Clone, PartialEq)] pub enum DataType { Timestamp(TimeUnit, Option<u8>), Int64 }
#[derive(Debug, Clone, PartialEq)] pub enum ScalarValue { Utf8(Option<String>) }
#[derive(Debug, Clone, PartialEq)] pub struct GetIndexedField { of: Box<Expr>, key: ScalarValue } impl GetIndexedField { pub fn new(of: Box<Expr>, key: ScalarValue) -> Self { Self { of, key } } }
#[derive(Debug, Clone, PartialEq)] pub enum Expr { Int(i64), Col(String), Bin(Box<Expr>, Operator, Box<Expr>), IsNotNull(Box<Expr>), NamedStruct(Box<Vec<(String, Expr)>>), GetIndexedField(GetIndexedField), Alias(Box<Expr>, String) }
#[derive(Debug, Clone, PartialEq)] pub enum Val { Null, I(i64), B(bool), S(Vec<(String, Val)>) }
impl Expr { pub fn alias(self, n: &str) -> Expr { Expr::Alias(Box::new(self), n.to_string()) }
 pub fn of(&self, row: &[(String, Val)]) -> Val { match self { Expr::Int(k) => Val::I(*k), Expr::Col(c) => row.iter().find(|x| x.0 == *c).map(|x| x.1.clone()).expect("column"), Expr::Alias(e, _) => e.of(row), Expr::IsNotNull(e) => Val::B(e.of(row) != Val::Null),
  Expr::NamedStruct(v) => Val::S(v.iter().map(|x| (x.0.clone(), x.1.of(row))).collect()), Expr::GetIndexedField(g) => { let ScalarValue::Utf8(Some(k)) = &g.key else { return Val::Null }; match g.of.of(row) { Val::S(v) => v.into_iter().find(|x| x.0 == *k).map(|x| x.1).unwrap_or(Val::Null), _ => Val::Null } }
  Expr::Bin(a, o, b) => match (a.of(row), o, b.of(row)) { (Val::B(a), Operator::And, Val::B(b)) => Val::B(a && b), (Val::I(a), o, Val::I(b)) => match o { Operator::Plus => Val::I(a.wrapping_add(b)), Operator::Minus => Val::I(a.wrapping_sub(b)), Operator::Multiply => Val::I(a.wrapping_mul(b)), Operator::Modulo => Val::I(a.wrapping_rem(b)), Operator::Divide => Val::I(a.wrapping_div(b)), Operator::GtEq => Val::B(a >= b), Operator::Lt => Val::B(a < b), Operator::Gt => Val::B(a > b), Operator::LtEq => Val::B(a <= b), Operator::Eq => Val::B(a == b), Operator::And => Val::Null }, _ => Val::Null } } }
 fn name(&self) -> String { match self { Expr::Alias(_, n) => n.clone(), Expr::Col(n) => n.clone(), _ => "?".into() } } }
pub fn lit(k: i64) -> Expr { Expr::Int(k) } pub fn col(n: &str) -> Expr { Expr::Col(n.to_string()) } pub fn cast(e: Expr, _: DataType) -> Expr { e } pub fn and(a: Expr, b: Expr) -> Expr { binary_expr(a, Operator::And, b) } pub fn binary_expr(a: Expr, o: Operator, b: Expr) -> Expr { Expr::Bin(Box::new(a), o, Box::new(b)) }
#[derive(Debug)] pub enum DataFusionError { Plan(String) } pub type Result<T, E = DataFusionError> = std::result::Result<T, E>; #[derive(Debug)] pub enum QueryError { InvalidTimeWindowParam { reason: String } }
// ---- stand-in: plans, done on rows ----
pub type Row = Vec<(String, Val)>; #[derive(Debug, Clone)] pub struct LogicalPlan { pub rows: Vec<Row> } pub struct LogicalPlanBuilder { rows: Vec<Row> }
impl LogicalPlanBuilder { pub fn from(p: LogicalPlan) -> Self { Self { rows: p.rows } } pub fn build(self) -> Result<LogicalPlan> { Ok(LogicalPlan { rows: self.rows }) }
 pub fn filter(self, e: Expr) -> Result<Self> { Ok(Self { rows: self.rows.into_iter().filter(|r| e.of(r) == Val::B(true)).collect() }) }
 pub fn project(self, p: Vec<Expr>) -> Result<Self> { self.expand(vec![p]) }
 pub fn expand(self, p: Vec<Vec<Expr>>) -> Result<Self> { Ok(Self { rows: p.iter().flat_map(|p| self.rows.iter().map(|r| p.iter().map(|e| (e.name(), e.of(r))).collect()).collect::<Vec<Row>>()).collect() }) } }
//@extract query_server/query/src/extension/expr/expr_fn.rs minus
@end
//@extract query_server/query/src/extension/expr/expr_fn.rs plus
@end
//@extract query_server/query/src/extension/expr/expr_fn.rs divide
@end
//@extract query_server/query/src/extension/expr/expr_fn.rs modulo
@end
//@extract query_server/query/src/extension/expr/expr_fn.rs multiply
@end
//@extract query_server/query/src/extension/expr/expr_fn.rs is_not_null
@end
//@extract query_server/query/src/extension/expr/expr_fn.rs ge
@end
//@extract query_server/query/src/extension/expr/expr_fn.rs lt
@end
//@extract query_server/query/src/extension/analyse/transform_time_window.rs struct TimeWindow
@end
//@extract query_server/query/src/extension/analyse/transform_time_window.rs TimeWindow::is_tumbling_window
@end
//@extract query_server/query/src/extension/analyse/transform_time_window.rs valid_duration
@end
//@extract query_server/query/src/extension/analyse/transform_time_window.rs make_window_expr
@end
//@extract query_server/query/src/extension/analyse/transform_time_window.rs build_tumbling_window_plan
@end
//@extract query_server/query/src/extension/analyse/transform_time_window.rs build_sliding_window_plan
@end
// as analyze_internal does: rows (with a time or none), window, slide, start
pub fn plan(times: &[Option<i64>], w: i64, s: i64, s0: i64) -> Option<std::result::Result<Vec<Row>, String>> {
 let (Ok(wd), Ok(sd)) = (valid_duration(Duration::from_nanos(w as u64)), valid_duration(Duration::from_nanos(s as u64))) else { return None };
 let window = TimeWindow { window_alias: "w".into(), time_column: col("time"), window_duration: wd, slide_duration: sd, start_time: lit(s0) };
 let child = LogicalPlan { rows: times.iter().enumerate().map(|(i, t)| vec![("time".to_string(), t.map_or(Val::Null, Val::I)), ("f".to_string(), Val::I(i as i64))]).collect() }; let exprs = vec![col("time"), col("f")];
 Some(if window.is_tumbling_window() { build_tumbling_window_plan(&window, child, exprs) } else { build_sliding_window_plan(&window, child, exprs) }.map(|p| p.rows).map_err(|e| format!("{e:?}")))
}
//@helpers
}
use tw::*;
const MS: i64 = 1_000_000;
fn get(r: &Row, n: &str) -> Val { r.iter().find(|x| x.0 == n).map(|x| x.1.clone()).unwrap_or(Val::Null) }
// every window [a, a + w) with a in s0 + s*Z that holds t
fn oracle(t: i64, w: i64, s: i64, s0: i64) -> Vec<(i64, i64)> { let (t, w, s, s0) = (t as i128, w as i128, s as i128, s0 as i128); let mut a = t - (t - s0).rem_euclid(s); let mut v = vec![]; while a + w > t { v.push((a as i64, (a + w) as i64)); a -= s; } v.sort(); v }
// what rows came out; (are they right, are they only too many, of the kind of the finding)
fn judge(times: &[Option<i64>], w: i64, s: i64, s0: i64) -> Result<bool, String> {
 let Some(rows) = plan(times, w, s, s0) else { return Ok(true) };
 let rows = match rows { Ok(r) => r, Err(e) => return if (w + s - 1) / s > 100 { Ok(true) } else { Err(format!("refused: {e}")) } };
 let mut extra = false;
 let mut seen = 0;
 for (i, t) in times.iter().enumerate() {
  let mut got = vec![];
  for r in &rows { if get(r, "f") == Val::I(i as i64) { seen += 1; if get(r, "time") != t.map_or(Val::Null, Val::I) { return Err(format!("row {i} has its time changed")); } let Val::S(f) = get(r, "window") else { return Err(format!("row {i} stands in no window")) }; match (get(&f, "start"), get(&f, "end")) { (Val::I(a), Val::I(b)) => got.push((a, b)), x => return Err(format!("row {i} has window {x:?}")) } } }
  got.sort(); let want = t.map_or(vec![], |t| oracle(t, w, s, s0));
  if got == want { continue; }
  let t = t.ok_or(format!("row {i} without time stands in {got:?}"))?;
  // the finding: no slides make a window, and the row also stands in the window that ended just before
  let n = (w + s - 1) / s; let a = t - (t as i128 - s0 as i128).rem_euclid(s as i128) as i64; let mut all: Vec<_> = (0..n).map(|k| (a - k * s, a - k * s + w)).collect(); all.sort();
  if w > s && w % s != 0 && got == all { extra = true; continue; }
  return Err(format!("a row of time {t} stands in {got:?}, and it is in {want:?}"));
 }
 if seen != rows.len() { return Err("rows of nothing".into()); }
 Ok(!extra)
}
fn main() {
    let mut h = vx::H::new();
    // the finding (known_findings.json): for this one it is said, for the others of its kind not
    { let times = [Some(10 * MS), Some(15 * MS), Some(16 * MS), Some(-3 * MS)]; h.case("uneven", 0, &|| "window 10ms slide 6ms".into(), &mut || if judge(&times, 10 * MS, 6 * MS, 0)? { Ok(()) } else { Err("rows also stand in a window that ended before their time".into()) }); }
    for seed in 0..h.scale(4000, 100000) {
        let mut r = h.rng(seed);
        let s = MS * r.pick(&[1, 2, 3, 5, 7, 10, 60_000, 86_400_000]); let w = match r.below(5) { 0 => s, 1 => s * (1 + r.below(12) as i64), 2 => MS * (1 + r.below(30) as i64), 3 => s + r.below(3) as i64, _ => MS * r.pick(&[1, 10, 100, 3_600_000, 365 * 86_400_000]) };
        let s0 = match r.below(4) { 0 => 0, 1 => MS * (r.below(40) as i64 - 20), 2 => r.below(1 << 60) as i64 - (1 << 59), _ => s * 3 + 1 };
        let times: Vec<Option<i64>> = (0..6).map(|_| match r.below(6) { 0 => None, 1 => Some(s0 + s * (r.below(9) as i64 - 4)), 2 => Some(s0 + w * (r.below(9) as i64 - 4) - 1), 3 => Some(MS * (r.below(60) as i64 - 30)), 4 => Some(r.below(1 << 61) as i64 - (1 << 60)), _ => Some(r.below(200) as i64 - 100) }).collect();
        let d = format!("window {w} slide {s} start {s0} times {times:?}");
        h.case("window", vx::hash(&d), &|| d.clone(), &mut || judge(&times, w, s, s0).map(|_| ()));
    }
    h.done();
}
