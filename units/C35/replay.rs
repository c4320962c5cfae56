//@prelude
mod lp {
use std::borrow::Cow;
// ---- stand-ins: the number crates, tuple_windows, the hash ----
pub mod atoi_simd { pub trait Int: std::str::FromStr {} impl Int for i64 {} impl Int for u64 {} pub fn parse<T: Int>(s: &[u8]) -> Result<T, ()> { let t = std::str::from_utf8(s).map_err(|_| ())?; if t.starts_with('+') { return Err(()); } t.parse().map_err(|_| ()) } pub fn parse_pos<T: Int>(s: &[u8]) -> Result<T, ()> { if !s.iter().all(|c| c.is_ascii_digit()) { return Err(()); } parse(s) } pub fn parse_until_invalid<T: Int>(s: &[u8]) -> Result<(T, usize), ()> { let m = s.first() == Some(&b'-'); let n = s.iter().skip(m as usize).take_while(|c| c.is_ascii_digit()).count() + m as usize; parse(&s[..n]).map(|v| (v, n)) } }
pub mod fast_float { pub fn parse(s: &[u8]) -> Result<f64, ()> { std::str::from_utf8(s).map_err(|_| ())?.parse().map_err(|_| ()) } }
trait Windows: Iterator + Sized where Self::Item: Clone { fn tuple_windows(self) -> std::vec::IntoIter<(Self::Item, Self::Item)> { let v: Vec<_> = self.collect(); v.windows(2).map(|w| (w[0].clone(), w[1].clone())).collect::<Vec<_>>().into_iter() } } impl<I: Iterator> Windows for I where I::Item: Clone {}
pub struct BkdrHasher(u64); impl BkdrHasher { pub fn new() -> Self { Self(0) } pub fn hash_with(&mut self, b: &[u8]) { for c in b { self.0 = self.0.wrapping_mul(1313).wrapping_add(*c as u64); } } pub fn number(&self) -> u64 { self.0 } }
#[derive(Debug, Clone, PartialEq)] pub enum FieldValue { U64(u64), I64(i64), Str(Vec<u8>), F64(f64), Bool(bool) }
//@extract common/protocol_parser/src/lib.rs struct Line
@derive Debug, Default, PartialEq
@end
//@extract common/protocol_parser/src/lib.rs Line::sort_dedup_and_hash
@end
//@extract common/protocol_parser/src/lib.rs Line::init_ordered_hash_id
@end
//@extract common/protocol_parser/src/line_protocol/parser.rs enum Error
@derive Debug, PartialEq
@end
pub type Result<T, E = Error> = std::result::Result<T, E>;
//@extract common/protocol_parser/src/line_protocol/parser.rs enum ParseStatus
@derive Debug
@end
//@extract common/protocol_parser/src/line_protocol/parser.rs struct Parser
@end
impl Parser { pub fn new(default_time: i64) -> Self { Self { default_time } } }
//@extract common/protocol_parser/src/line_protocol/parser.rs Parser::parse
@end
//@extract common/protocol_parser/src/line_protocol/parser.rs escape
@end
//@extract common/protocol_parser/src/line_protocol/parser.rs parse_field_value
@end
//@extract common/protocol_parser/src/line_protocol/parser.rs parse_numeric_field
@end
//@extract common/protocol_parser/src/line_protocol/parser.rs parse_boolean_field
@end
//@extract common/protocol_parser/src/line_protocol/parser.rs parse_string_field
@end
//@extract common/protocol_parser/src/line_protocol/parser.rs escaped_field_value
@end
//@extract common/protocol_parser/src/line_protocol/parser.rs u8_slice_to_str_unchecked
@end
#[derive(Debug, Clone, PartialEq)] pub struct Got { pub table: String, pub tags: Vec<(String, String)>, pub fields: Vec<(String, FieldValue)>, pub ts: i64 }
pub fn read(s: &str, dt: i64) -> std::result::Result<Vec<Got>, String> { Parser::new(dt).parse(s).map(|v| v.into_iter().map(|l| Got { table: l.table.to_string(), tags: l.tags.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect(), fields: l.fields.iter().map(|x| (x.0.to_string(), x.1.clone())).collect(), ts: l.timestamp }).collect()).map_err(|e| format!("{e:?}")) }
//@helpers
}
use lp::*;
const DT: i64 = 77;
fn enc(t: &str, eq: bool) -> String { t.chars().flat_map(|c| if c == ',' || c == ' ' || (eq && c == '=') { vec!['\\', c] } else { vec![c] }).collect() }
fn encs(t: &str) -> String { t.chars().flat_map(|c| if c == '"' || c == '\\' { vec!['\\', c] } else { vec![c] }).collect() }
#[derive(Clone, Debug)] struct P { table: String, tags: Vec<(String, String)>, fields: Vec<(String, String, FieldValue)>, ts: Option<i64>, gaps: (usize, usize, usize) }
fn text(p: &P) -> String {
    let mut s = enc(&p.table, false); for (k, v) in &p.tags { s += &format!(",{}={}", enc(k, true), enc(v, true)); } s += &" ".repeat(1 + p.gaps.0);
    s += &p.fields.iter().map(|(k, r, v)| format!("{}={}", enc(k, true), match v { FieldValue::Str(t) => format!("\"{}\"", encs(std::str::from_utf8(t).unwrap())), _ => r.clone() })).collect::<Vec<_>>().join(",");
    match p.ts { None => s += &" ".repeat(p.gaps.1), Some(t) => { s += &" ".repeat(1 + p.gaps.1); s += &t.to_string(); s += &" ".repeat(p.gaps.2); } } s
}
fn first<T: Clone>(v: &[(String, T)]) -> Vec<(String, T)> { let mut o: Vec<(String, T)> = vec![]; for x in v { if !o.iter().any(|y| y.0 == x.0) { o.push(x.clone()); } } o.sort_by(|a, b| a.0.cmp(&b.0)); o }
fn want(p: &P) -> Got { Got { table: p.table.clone(), tags: first(&p.tags), fields: first(&p.fields.iter().map(|x| (x.0.clone(), x.2.clone())).collect::<Vec<_>>()), ts: p.ts.unwrap_or(DT) } }
fn some(r: &mut vx::Rng, n: u64, set: &[&str]) -> String { (0..n).map(|_| r.pick(set)).collect() }
const NAME: &[&str] = &["a", "b", ",", " ", "=", "\"", "'", "中", "0", ".", "#", "\t", "t"];
fn nm(r: &mut vx::Rng, min: u64) -> String { let n = min + r.below(4); some(r, n, NAME) }
fn val(r: &mut vx::Rng) -> (String, FieldValue) {
    match r.below(6) { 0 => { let v = r.word() as i64; (format!("{v}i"), FieldValue::I64(v)) } 1 => { let v = r.word(); (format!("{v}u"), FieldValue::U64(v)) } 2 => { let v = r.pick(&["true", "True", "TRUE", "t", "T", "false", "False", "FALSE", "f", "F"]); (v.to_string(), FieldValue::Bool(v.starts_with(['t', 'T']))) } 3 => { let v = r.pick(&["1", "-2.5", "1e9", "0.25", "+3"]); (v.to_string(), FieldValue::F64(v.parse().unwrap())) }
        _ => { let n = r.below(6); (String::new(), FieldValue::Str(some(r, n, &["a", "\\", "\"", "\n", "\r", ",", " ", "=", "#", "中"]).into_bytes())) } }
}
fn point(r: &mut vx::Rng) -> P { let mut t = nm(r, 1); if t.starts_with('#') || t.starts_with('\t') { t.insert(0, 'm'); } P { table: t, tags: (0..r.below(4)).map(|_| (nm(r, 0), nm(r, 0))).collect(), fields: (0..1 + r.below(3)).map(|_| { let k = nm(r, 1); let (a, b) = val(r); (k, a, b) }).collect(), ts: if r.chance(1, 2) { None } else { Some(r.word() as i64) }, gaps: (r.below(3) as usize, r.below(3) as usize, r.below(3) as usize) } }
// written and read again, whole and one by one
fn round(ps: &[Option<P>], last: bool, nl: &str) -> Result<(), String> {
    let mut s = String::new(); for p in ps { match p { Some(p) => s += &text(p), None => s += "# a comment, with x=1 2" } s += nl; } if !last { s.truncate(s.len() - nl.len()); }
    let want: Vec<Got> = ps.iter().flatten().map(want).collect();
    match read(&s, DT) { Err(e) => Err(format!("{s:?} is refused: {e}")), Ok(g) if g != want => Err(format!("{s:?} is read as {g:?}, written was {want:?}")), _ => Ok(()) }
}
// lines of any kind (without strings): a batch is its lines
fn alone(ls: &[String], last: bool) -> Result<(), String> {
    let mut want = Ok(vec![]); for l in ls { match (read(l, DT), &mut want) { (Ok(g), Ok(v)) => v.extend(g), (Err(e), Ok(_)) => want = Err(format!("{l:?}: {e}")), _ => {} } }
    let s = ls.join("\n") + if last { "\n" } else { "" }; let got = read(&s, DT);
    match (got, want) { (Ok(g), Ok(w)) if g == w => Ok(()), (Err(_), Err(_)) => Ok(()), (g, w) => Err(format!("{s:?} is read as {g:?}, its lines alone as {w:?}")) }
}
fn main() {
    let mut h = vx::H::new();
    for seed in 0..h.scale(8000, 300000) {
        let mut r = h.rng(seed);
        let ps: Vec<Option<P>> = (0..1 + r.below(4)).map(|_| if r.chance(1, 8) { None } else { Some(point(&mut r)) }).collect(); let last = r.chance(1, 2); let nl = r.pick(&["\n", "\r\n", "\r"]);
        h.case("round", vx::hash(&format!("{ps:?}{last}")), &|| format!("{ps:?}"), &mut || round(&ps, last, nl));
        let p = point(&mut r); let open = (0..9).map(|_| point(&mut r)).find_map(|q| q.fields.iter().find_map(|f| if let FieldValue::Str(t) = &f.2 { Some(format!("{}={}", enc(&f.0, true), encs(std::str::from_utf8(t).unwrap()).replacen("", "\"", 1))) } else { None }));
        if let Some(o) = open { let s = format!("{}\nm {o}", text(&p)); h.case("open", vx::hash(&s), &|| format!("{s:?}"), &mut || match read(&s, DT) { Err(_) => Ok(()), Ok(g) => Err(format!("a string that does not end is read as {g:?}")) }); }
        let ls: Vec<String> = (0..1 + r.below(4)).map(|_| { let n = r.below(4); let good = r.pick(&["m f=1", "m,t=a f=1 5", "m,t=a f=t,g=2i  9 ", "m f=F", ""]).to_string(); let mut b: Vec<char> = good.chars().collect(); for _ in 0..n { let k = r.below(b.len() as u64 + 1) as usize; match r.below(3) { 0 if k < b.len() => { b.remove(k); } 1 if k < b.len() => { b.truncate(k); } _ => b.insert(k, r.pick(&['\\', ',', ' ', '=', '#', '5', 'x', '\t', '-'])) } } b.into_iter().collect() }).collect();
        h.case("lines", vx::hash(&format!("{ls:?}{last}")), &|| format!("{ls:?}"), &mut || alone(&ls, last));
        let n = r.below(12); let any = some(&mut r, n, &["m", "f=", "=", ",", " ", "\\", "\"", "\n", "1", "t", "#", "-", "i", "u", "\r", "中"]); h.case("any", vx::hash(&any), &|| format!("{any:?}"), &mut || { let _ = read(&any, DT); Ok(()) });
    }
    h.done();
}
