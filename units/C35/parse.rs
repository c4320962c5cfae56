use vstd::prelude::*;
verus! {
global size_of usize == 8;
type B = Seq<u8>;
struct Error {}
type Result<T> = std::result::Result<T, Error>;
enum FieldValue { U64(u64), I64(i64), Str(Vec<u8>), F64(f64), Bool(bool) }
enum FV { U64(u64), I64(i64), Str(B), F64(f64), Bool(bool) }
spec fn fv(x: FieldValue) -> FV { match x { FieldValue::U64(k) => FV::U64(k), FieldValue::I64(k) => FV::I64(k), FieldValue::Str(s) => FV::Str(s@), FieldValue::F64(k) => FV::F64(k), FieldValue::Bool(k) => FV::Bool(k) } }
// what the number crates make of a text
spec fn int_text(s: B) -> Option<i64>;
spec fn nat_text(s: B) -> Option<u64>;
spec fn float_text(s: B) -> Option<f64>;
#[verifier::external_body] fn atoi(s: &[u8]) -> (r: Result<i64>) ensures r matches Ok(k) ==> int_text(s@) == Some(k), r is Err ==> int_text(s@) is None { unimplemented!() }
#[verifier::external_body] fn atou(s: &[u8]) -> (r: Result<u64>) ensures r matches Ok(k) ==> nat_text(s@) == Some(k), r is Err ==> nat_text(s@) is None { unimplemented!() }
#[verifier::external_body] fn atof(s: &[u8]) -> (r: Result<f64>) ensures r matches Ok(k) ==> float_text(s@) == Some(k), r is Err ==> float_text(s@) is None { unimplemented!() }
spec fn space(c: u8) -> bool { c == 32 || c == 9 || c == 10 || c == 12 || c == 13 }
fn is_ws(c: u8) -> (r: bool) ensures r == space(c) { c == 32 || c == 9 || c == 10 || c == 12 || c == 13 }
spec fn nl(c: u8) -> bool { c == 10 || c == 13 }
// ---- a line, and what is made of it at its end: tags and fields by name, the first of a name (uninterpreted: sort and dedup of std) ----
ghost struct L { table: B, tags: Seq<(B, B)>, fields: Seq<(B, FV)>, ts: i64 }
spec fn by_name<T>(t: Seq<(B, T)>) -> Seq<(B, T)>;
spec fn first_of_name<T>(t: Seq<(B, T)>) -> Seq<(B, T)>;
spec fn tidy_tags(t: Seq<(B, B)>) -> Seq<(B, B)> { first_of_name(by_name(t)) }
spec fn tidy_fields(t: Seq<(B, FV)>) -> Seq<(B, FV)> { first_of_name(by_name(t)) }
#[verifier::external_body] fn sort_tags(v: &mut Vec<(Vec<u8>, Vec<u8>)>) ensures tags_(final(v)@) == by_name(tags_(old(v)@)) { unimplemented!() }
#[verifier::external_body] fn dedup_tags(v: &mut Vec<(Vec<u8>, Vec<u8>)>) ensures tags_(final(v)@) == first_of_name(tags_(old(v)@)) { unimplemented!() }
#[verifier::external_body] fn sort_fields(v: &mut Vec<(Vec<u8>, FieldValue)>) ensures fields_(final(v)@) == by_name(fields_(old(v)@)) { unimplemented!() }
#[verifier::external_body] fn dedup_fields(v: &mut Vec<(Vec<u8>, FieldValue)>) ensures fields_(final(v)@) == first_of_name(fields_(old(v)@)) { unimplemented!() }
spec fn tidy(l: L) -> L { L { table: l.table, tags: tidy_tags(l.tags), fields: tidy_fields(l.fields), ts: l.ts } }
spec fn no_line() -> L { L { table: Seq::empty(), tags: Seq::empty(), fields: Seq::empty(), ts: 0 } }
struct Line { hash_id: u64, table: Vec<u8>, tags: Vec<(Vec<u8>, Vec<u8>)>, fields: Vec<(Vec<u8>, FieldValue)>, timestamp: i64 }
spec fn tags_(v: Seq<(Vec<u8>, Vec<u8>)>) -> Seq<(B, B)> { v.map_values(|x: (Vec<u8>, Vec<u8>)| (x.0@, x.1@)) }
spec fn fields_(v: Seq<(Vec<u8>, FieldValue)>) -> Seq<(B, FV)> { v.map_values(|x: (Vec<u8>, FieldValue)| (x.0@, fv(x.1))) }
spec fn line_(l: Line) -> L { L { table: l.table@, tags: tags_(l.tags@), fields: fields_(l.fields@), ts: l.timestamp } }
spec fn lines_(v: Seq<Line>) -> Seq<L> { v.map_values(|l: Line| line_(l)) }
impl Line {
    #[verifier::external_body] fn default() -> (r: Line) ensures line_(r) == no_line() { unimplemented!() }
    // the hash is of no concern here
    #[verifier::external_body] fn init_ordered_hash_id(&mut self) ensures line_(*final(self)) == line_(*old(self)) { unimplemented!() }
}
//@extract common/protocol_parser/src/lib.rs Line::sort_dedup_and_hash
@header impl Line
@subst /self\.(\w+)\.sort_by\(\|a, b\| a\.0\.cmp\(&b\.0\)\);/ => sort_\1(&mut self.\1);
@subst /self\.(\w+)\.dedup_by\(\|a, b\| a\.0 == b\.0\);/ => dedup_\1(&mut self.\1);
@spec
    ensures line_(*final(self)) == tidy(line_(*old(self)))
@end
// ---- escapes ----
spec fn special(c: u8) -> bool { c == 44 || c == 32 || c == 61 }
// a token without its escapes: all but the last character, so far; None: a separator stands there without one
spec fn un(s: B) -> Option<B> decreases s.len() {
    if s.len() < 2 { Some(Seq::empty()) } else {
        let a = s[s.len() - 2]; let b = s[s.len() - 1];
        match un(s.drop_last()) { None => None, Some(o) => if special(b) && a == 92 { Some(o) } else if b == 44 || b == 32 { None } else { Some(o.push(a)) } }
    }
}
spec fn token(s: B, esc: bool) -> Option<B> { if !esc { Some(s) } else { match un(s) { None => None, Some(o) => Some(o.push(s.last())) } } }
// a string likewise
spec fn us(s: B) -> Option<(B, bool)> decreases s.len() {
    if s.len() < 2 { Some((Seq::empty(), false)) } else {
        let a = s[s.len() - 2]; let b = s[s.len() - 1];
        match us(s.drop_last()) { None => None, Some(o) => if a == 92 && (b == 34 || b == 92) && o.1 && b == 34 { None } else if a == 92 && (b == 34 || b == 92) && !o.1 { Some((o.0, true)) } else { Some((o.0.push(a), false)) } }
    }
}
spec fn text(s: B, esc: bool) -> Option<B> { if !esc { Some(s) } else { match us(s) { None => None, Some(o) => Some(o.0.push(s.last())) } } }
spec fn booln(s: B, b: bool) -> Option<FV> { if s.len() == 1 || s == seq![116u8, 114, 117, 101] || s == seq![84u8, 114, 117, 101] || s == seq![84u8, 82, 85, 69] || s == seq![102u8, 97, 108, 115, 101] || s == seq![70u8, 97, 108, 115, 101] || s == seq![70u8, 65, 76, 83, 69] { Some(FV::Bool(b)) } else { None } }
spec fn number(s: B) -> Option<FV> {
    let h = s.drop_last();
    if s.last() == 105 { match int_text(h) { Some(k) => Some(FV::I64(k)), None => None } } else if s.last() == 117 { match nat_text(h) { Some(k) => Some(FV::U64(k)), None => None } } else { match float_text(s) { Some(k) => Some(FV::F64(k)), None => None } }
}
spec fn value(s: B, esc: bool) -> Option<FV> {
    if s.len() == 0 { None } else { let c = s[0];
        if c == 116 || c == 84 { booln(s, true) } else if c == 102 || c == 70 { booln(s, false) }
        else if c == 34 { if s.len() < 2 || s.last() != 34 { None } else { match text(s.subrange(1, s.len() - 1), esc) { Some(t) => Some(FV::Str(t)), None => None } } }
        else if c == 43 || c == 45 || 48 <= c <= 57 { number(s) } else { None } }
}
// ---- the language: what the parser has read so far ----
ghost enum St { Begin { comment: bool }, Table { key: B, kf: bool, esc: bool }, Gap, TagKey { key: B, kf: bool, esc: bool }, TagVal { key: B, kf: bool, val: B, vf: bool, esc: bool }, FieldKey { key: B, kf: bool, esc: bool }, FieldVal { key: B, kf: bool, val: B, vf: bool, esc: bool, q: bool }, Tail, Time { raw: B } }
ghost struct M { st: St, line: L, out: Seq<L> }
spec fn goto(m: M, st: St) -> Option<M> { Some(M { st, ..m }) }
spec fn close(m: M, ts: i64) -> Option<M> { Some(M { st: St::Begin { comment: false }, line: no_line(), out: m.out.push(tidy(L { ts, ..m.line })) }) }
spec fn add_tag(m: M, key: B, kf: bool, val: B, vf: bool, st: St) -> Option<M> { if token(key, kf) is None || token(val, vf) is None { None } else { Some(M { st, line: L { tags: m.line.tags.push((token(key, kf)->0, token(val, vf)->0)), ..m.line }, ..m }) } }
spec fn add_field(m: M, key: B, kf: bool, val: B, vf: bool, st: St) -> Option<M> { if token(key, kf) is None || value(val, vf) is None { None } else { Some(M { st, line: L { fields: m.line.fields.push((token(key, kf)->0, value(val, vf)->0)), ..m.line }, ..m }) } }
spec fn set_table(m: M, key: B, kf: bool, st: St) -> Option<M> { match token(key, kf) { None => None, Some(t) => Some(M { st, line: L { table: t, ..m.line }, ..m }) } }
spec fn key0() -> St { St::TagKey { key: Seq::empty(), kf: false, esc: false } }
spec fn fkey0() -> St { St::FieldKey { key: Seq::empty(), kf: false, esc: false } }
spec fn may_escape(c: u8) -> bool { c == 44 || c == 32 || c == 92 || c == 34 || c == 39 }
spec fn step(m: M, c: u8, dt: i64) -> Option<M> {
    match m.st {
        St::Begin { comment } => if comment { goto(m, St::Begin { comment: !nl(c) }) } else if space(c) { Some(m) } else if c == 35 { goto(m, St::Begin { comment: true }) } else { goto(m, St::Table { key: seq![c], kf: c == 92, esc: c == 92 }) },
        St::Table { key, kf, esc } => if nl(c) { None } else if esc { if may_escape(c) { goto(m, St::Table { key: key.push(c), kf, esc: false }) } else { None } } else if c == 92 { goto(m, St::Table { key: key.push(c), kf: true, esc: true }) } else if c == 44 { set_table(m, key, kf, key0()) } else if c == 32 { set_table(m, key, kf, St::Gap) } else { goto(m, St::Table { key: key.push(c), kf, esc }) },
        St::Gap => if nl(c) { None } else if c == 32 { Some(m) } else { goto(m, St::FieldKey { key: seq![c], kf: c == 92, esc: c == 92 }) },
        St::TagKey { key, kf, esc } => if nl(c) { None } else if esc { if may_escape(c) || c == 61 { goto(m, St::TagKey { key: key.push(c), kf, esc: false }) } else { None } } else if c == 92 { goto(m, St::TagKey { key: key.push(c), kf: true, esc: true }) } else if c == 61 { goto(m, St::TagVal { key, kf, val: Seq::empty(), vf: false, esc: false }) } else { goto(m, St::TagKey { key: key.push(c), kf, esc }) },
        St::TagVal { key, kf, val, vf, esc } => if nl(c) { None } else if esc { if may_escape(c) || c == 61 { goto(m, St::TagVal { key, kf, val: val.push(c), vf, esc: false }) } else { None } } else if c == 92 { goto(m, St::TagVal { key, kf, val: val.push(c), vf: true, esc: true }) } else if c == 44 { add_tag(m, key, kf, val, vf, key0()) } else if c == 32 { add_tag(m, key, kf, val, vf, St::Gap) } else { goto(m, St::TagVal { key, kf, val: val.push(c), vf, esc }) },
        St::FieldKey { key, kf, esc } => if nl(c) { None } else if esc { if may_escape(c) || c == 61 { goto(m, St::FieldKey { key: key.push(c), kf, esc: false }) } else { None } } else if c == 92 { goto(m, St::FieldKey { key: key.push(c), kf: true, esc: true }) } else if c == 61 { goto(m, St::FieldVal { key, kf, val: Seq::empty(), vf: false, esc: false, q: false }) } else { goto(m, St::FieldKey { key: key.push(c), kf, esc }) },
        St::FieldVal { key, kf, val, vf, esc, q } => if esc { if c == 39 || c == 34 || c == 92 { goto(m, St::FieldVal { key, kf, val: val.push(c), vf, esc: false, q }) } else { None } } else if c == 34 { goto(m, St::FieldVal { key, kf, val: val.push(c), vf, esc, q: !q }) } else if c == 92 { goto(m, St::FieldVal { key, kf, val: val.push(c), vf: true, esc: true, q }) }
            else if c == 44 && !q { add_field(m, key, kf, val, vf, fkey0()) } else if c == 32 && !q { add_field(m, key, kf, val, vf, St::Tail) } else if nl(c) && !q { match add_field(m, key, kf, val, vf, St::Tail) { None => None, Some(n) => close(n, dt) } } else { goto(m, St::FieldVal { key, kf, val: val.push(c), vf, esc, q }) },
        St::Tail => if nl(c) { close(m, dt) } else if c == 32 { Some(m) } else { goto(m, St::Time { raw: seq![c] }) },
        St::Time { raw } => if space(c) { match int_text(raw) { None => None, Some(k) => close(m, k) } } else { goto(m, St::Time { raw: raw.push(c) }) },
    }
}
// the end of the data
spec fn end(m: M, dt: i64) -> Option<Seq<L>> {
    match m.st {
        St::Begin { comment } => Some(m.out),
        St::Tail => Some(close(m, dt)->0.out),
        St::Time { raw } => match int_text(raw) { None => None, Some(k) => Some(close(m, k)->0.out) },
        St::FieldVal { key, kf, val, vf, esc, q } => if q { None } else { match add_field(m, key, kf, val, vf, St::Tail) { None => None, Some(n) => Some(close(n, dt)->0.out) } },
        _ => None,
    }
}
spec fn run(m: M, s: B, dt: i64) -> Option<M> decreases s.len() { if s.len() == 0 { Some(m) } else { match run(m, s.drop_last(), dt) { None => None, Some(n) => step(n, s.last(), dt) } } }
spec fn start() -> M { M { st: St::Begin { comment: false }, line: no_line(), out: Seq::empty() } }
spec fn parsed(s: B, dt: i64) -> Option<Seq<L>> { match run(start(), s, dt) { None => None, Some(m) => end(m, dt) } }
proof fn lemma_prefix(m: M, s: B, i: int, dt: i64) requires 0 <= i < s.len() ensures run(m, s.take(i + 1), dt) == (match run(m, s.take(i), dt) { None => None, Some(n) => step(n, s[i], dt) }) { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
proof fn lemma_dead(m: M, s: B, i: int, dt: i64) requires 0 <= i <= s.len(), run(m, s.take(i), dt) is None ensures run(m, s, dt) is None decreases s.len() - i { if i < s.len() { lemma_prefix(m, s, i, dt); lemma_dead(m, s, i + 1, dt); } else { assert(s.take(i) =~= s); } }
// ---- the code ----
//@extract common/protocol_parser/src/line_protocol/parser.rs escape
@subst /-> Result<Cow<str>>/ => -> Result<Vec<u8>>
@subst /Ok\(Cow::Borrowed\(u8_slice_to_str_unchecked\(s\)\)\)/ => Ok(copy(s))
@subst /Err\(Error::\w+\)/ => Err(Error {})
@subst /for \(&v1, &v2\) in s\.iter\(\)\.tuple_windows\(\) \{/ => let mut wi: usize = 1; while wi < s.len() { let v1 = s[wi - 1]; let v2 = s[wi]; wi = wi + 1;
@subst /Ok\(Cow::Owned\(unsafe \{\s*String::from_utf8_unchecked\((\w+)\)\s*\}\)\)/ => Ok(\1)
@ret r
@spec
    requires need_unescape ==> s@.len() > 0
    ensures r matches Ok(v) ==> token(s@, need_unescape) == Some(v@), r is Err ==> token(s@, need_unescape) is None
@at start
    proof { assert(s@.take(s@.len() as int) =~= s@); }
@loop 0
    invariant need_unescape, s@.len() > 0, 1 <= wi <= s@.len(), un(s@.take(wi as int)) == Some(ownd_bytes@)
    decreases s@.len() - wi
@at loop-start 0
    proof { let p = s@.take(wi + 1); assert(p.drop_last() =~= s@.take(wi as int)); if un(p) is None { lemma_un_dead(s@, wi + 1); } }
@end
proof fn lemma_un_dead(s: B, i: int) requires 0 <= i <= s.len(), un(s.take(i)) is None ensures un(s) is None decreases s.len() - i { if i < s.len() { assert(s.take(i + 1).drop_last() =~= s.take(i)); lemma_un_dead(s, i + 1); } else { assert(s.take(i) =~= s); } }
proof fn lemma_us_dead(s: B, i: int) requires 0 <= i <= s.len(), us(s.take(i)) is None ensures us(s) is None decreases s.len() - i { if i < s.len() { assert(s.take(i + 1).drop_last() =~= s.take(i)); lemma_us_dead(s, i + 1); } else { assert(s.take(i) =~= s); } }
#[verifier::external_body] fn copy(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
//@extract common/protocol_parser/src/line_protocol/parser.rs escaped_field_value
@subst /buf\.to_owned\(\)/ => copy(buf)
@subst /Err\(Error::\w+ \{[\s\S]*?\}\)/ => Err(Error {})
@subst /for \(&v1, &v2\) in buf\.iter\(\)\.tuple_windows\(\) \{/ => let mut wi: usize = 1; while wi < buf.len() { let v1 = buf[wi - 1]; let v2 = buf[wi]; wi = wi + 1;
@ret r
@spec
    requires need_unescape ==> buf@.len() > 0
    ensures r matches Ok(v) ==> text(buf@, need_unescape) == Some(v@), r is Err ==> text(buf@, need_unescape) is None
@at start
    proof { assert(buf@.take(buf@.len() as int) =~= buf@); }
@loop 0
    invariant need_unescape, buf@.len() > 0, 1 <= wi <= buf@.len(), us(buf@.take(wi as int)) == Some((ownd_bytes@, in_unescape))
    decreases buf@.len() - wi
@at loop-start 0
    proof { let p = buf@.take(wi + 1); assert(p.drop_last() =~= buf@.take(wi as int)); if us(p) is None { lemma_us_dead(buf@, wi + 1); } }
@end
//@extract common/protocol_parser/src/line_protocol/parser.rs parse_string_field
@subst /Err\(Error::\w+ \{[\s\S]*?\}\)/ => Err(Error {})
@ret r
@spec
    requires buf@.len() > 0, buf@[0] == 34, need_unescape ==> buf@.contains(92)
    ensures r matches Ok(v) ==> value(buf@, need_unescape) == Some(fv(v)), r is Err ==> value(buf@, need_unescape) is None
@at start
    proof { if need_unescape { let i = choose|i: int| 0 <= i < buf@.len() && buf@[i] == 92; } }
@end
//@extract common/protocol_parser/src/line_protocol/parser.rs parse_numeric_field
@subst /atoi_simd::parse\(([^;]*?)\)\.map_err\(\|_\| Error::\w+ \{[\s\S]*?\}\)\?/ => atoi(\1)?
@subst /atoi_simd::parse_pos\(([^;]*?)\)\.map_err\(\|_\| Error::\w+ \{[\s\S]*?\}\)\?/ => atou(\1)?
@subst /fast_float::parse\(([^;]*?)\)\.map_err\(\|_\| Error::\w+ \{[\s\S]*?\}\)\?/ => atof(\1)?
@subst /match &buf\[/ => match buf[
@ret r
@spec
    requires buf@.len() > 0
    ensures r matches Ok(v) ==> number(buf@) == Some(fv(v)), r is Err ==> number(buf@) is None
@at start
    proof { assert(buf@.subrange(0, buf@.len() - 1) =~= buf@.drop_last()); }
@end
enum Word { Wtrue, WTrue, WTRUE, Wfalse, WFalse, WFALSE, Other }
spec fn spelt(w: Word) -> B { match w { Word::Wtrue => seq![116u8, 114, 117, 101], Word::WTrue => seq![84u8, 114, 117, 101], Word::WTRUE => seq![84u8, 82, 85, 69], Word::Wfalse => seq![102u8, 97, 108, 115, 101], Word::WFalse => seq![70u8, 97, 108, 115, 101], Word::WFALSE => seq![70u8, 65, 76, 83, 69], Word::Other => Seq::empty() } }
#[verifier::external_body] fn word(s: &[u8]) -> (w: Word) ensures !(w is Other) ==> s@ == spelt(w), w is Other ==> forall|x: Word| !(x is Other) ==> s@ != #[trigger] spelt(x) { unimplemented!() }
//@extract common/protocol_parser/src/line_protocol/parser.rs parse_boolean_field
@subst /Err\(Error::\w+ \{[\s\S]*?\}\)/ => Err(Error {})
@subst /match buf \{/ => match word(buf) {
@subst /b"(\w+)"/ => Word::W\1
@ret r
@spec
    ensures r matches Ok(v) ==> booln(buf@, boolean) == Some(fv(v)), r is Err ==> booln(buf@, boolean) is None
@at start
    proof { assert(spelt(Word::Wtrue) == spelt(Word::Wtrue) && spelt(Word::WTrue) == spelt(Word::WTrue) && spelt(Word::WTRUE) == spelt(Word::WTRUE) && spelt(Word::Wfalse) == spelt(Word::Wfalse) && spelt(Word::WFalse) == spelt(Word::WFalse) && spelt(Word::WFALSE) == spelt(Word::WFALSE)); }
@end
//@extract common/protocol_parser/src/line_protocol/parser.rs parse_field_value
@subst /Err\(Error::\w+ \{[\s\S]*?\}\)/ => Err(Error {})
@ret r
@spec
    requires need_unescape ==> buf@.contains(92)
    ensures r matches Ok(v) ==> value(buf@, need_unescape) == Some(fv(v)), r is Err ==> value(buf@, need_unescape) is None
@end
// ---- the loop: the variables are the state ----
//@extract common/protocol_parser/src/line_protocol/parser.rs enum ParseStatus
@derive Clone, Copy
@end
//@extract common/protocol_parser/src/line_protocol/parser.rs struct Parser
@end
spec fn st_(status: ParseStatus, comment: bool, skip: bool, esc: bool, k: (usize, usize, bool), v: (usize, usize, bool), q: bool, s: B, i: int) -> St {
    match status {
        ParseStatus::LineBegin => St::Begin { comment },
        ParseStatus::Table => if skip { St::Gap } else { St::Table { key: s.subrange(k.0 as int, i), kf: k.2, esc } },
        ParseStatus::TagKey => St::TagKey { key: s.subrange(k.0 as int, i), kf: k.2, esc },
        ParseStatus::TagValue => if skip { St::Gap } else { St::TagVal { key: s.subrange(k.0 as int, k.1 as int), kf: k.2, val: s.subrange(v.0 as int, i), vf: v.2, esc } },
        ParseStatus::FieldKey => St::FieldKey { key: s.subrange(k.0 as int, i), kf: k.2, esc },
        ParseStatus::FieldValue => if skip { St::Tail } else { St::FieldVal { key: s.subrange(k.0 as int, k.1 as int), kf: k.2, val: s.subrange(v.0 as int, i), vf: v.2, esc, q } },
        ParseStatus::Timestamp => St::Time { raw: s.subrange(k.0 as int, i) },
    }
}
spec fn ok_(status: ParseStatus, comment: bool, skip: bool, esc: bool, k: (usize, usize, bool), v: (usize, usize, bool), q: bool, i: int) -> bool {
    &&& comment ==> status is LineBegin
    &&& skip ==> status is Table || status is TagValue || status is FieldValue
    &&& status is LineBegin || status is Timestamp || skip ==> !esc && !q
    &&& !(status is FieldValue) ==> !q
    &&& status is Table && !skip || status is TagKey || status is FieldKey || status is Timestamp ==> k.0 <= i
    &&& (status is TagValue || status is FieldValue) && !skip ==> k.0 <= k.1 < v.0 <= i
    &&& status is Timestamp ==> 0 < k.0 < i
}
// a flag of an escape stands for a backslash
spec fn flags(st: St) -> bool {
    match st { St::Table { key, kf, esc } => kf ==> key.contains(92), St::TagKey { key, kf, esc } => kf ==> key.contains(92), St::FieldKey { key, kf, esc } => kf ==> key.contains(92), St::TagVal { key, kf, val, vf, esc } => (kf ==> key.contains(92)) && (vf ==> val.contains(92)), St::FieldVal { key, kf, val, vf, esc, q } => (kf ==> key.contains(92)) && (vf ==> val.contains(92)), _ => true }
}
proof fn lemma_flags(m: M, c: u8, dt: i64) requires flags(m.st) ensures step(m, c, dt) matches Some(n) ==> flags(n.st) {
    assert forall|x: B| x.contains(92) implies #[trigger] x.push(c).contains(92) by { let i = choose|i: int| 0 <= i < x.len() && x[i] == 92; assert(x.push(c)[i] == 92); }
    assert forall|x: B| c == 92 implies #[trigger] x.push(c).contains(92) by { assert(x.push(c)[x.len() as int] == 92); }
    assert(c == 92 ==> seq![c].contains(92)) by { assert(seq![c][0] == c); }
}
proof fn lemma_long(s: B) requires s.contains(92) ensures s.len() > 0 {}
//@extract common/protocol_parser/src/line_protocol/parser.rs Parser::parse
@subst /parse<'a>\(&self, data: &'a str\) -> Result<Vec<Line<'a>>>/ => parse(&self, data: &[u8]) -> Result<Vec<Line>>
@subst /data\.as_bytes\(\)/ => data
@subst /for index in 0\.\.data_len \{/ => let mut at: usize = 0; while at < data_len { let index = at; at = at + 1;
@subst /char\.is_ascii_whitespace\(\)/ => is_ws(char)
@subst /atoi_simd::parse\(([^;]*?)\)\s*\.map_err\(\|_\| Error::\w+ \{[\s\S]*?\}\)\?/ => atoi(\1)?
@subst /Err\(Error::\w+ \{[\s\S]*?\}\)/ => Err(Error {})
@ret r
@spec
    ensures r matches Ok(v) ==> parsed(data@, self.default_time) == Some(lines_(v@)), r is Err ==> parsed(data@, self.default_time) is None
@loop 0
    invariant 0 <= at <= data_len, data_len == data@.len(), data_bytes@ == data@, ok_(status, comment, skip_space, next_escape, key_idx, val_idx, inside_quotes, at as int), run(start(), data@.take(at as int), self.default_time) == Some(M { st: st_(status, comment, skip_space, next_escape, key_idx, val_idx, inside_quotes, data@, at as int), line: line_(line), out: lines_(lines@) }), flags(st_(status, comment, skip_space, next_escape, key_idx, val_idx, inside_quotes, data@, at as int))
    decreases data_len - at
@at start
    proof { assert(data@.take(0) =~= Seq::empty()); assert(data@.take(data@.len() as int) =~= data@); lemma_views(); }
@at before /while at < data_len/
    proof { assert(lines_(lines@) =~= Seq::empty()); }
@at loop-start 0
    let ghost m0 = M { st: st_(status, comment, skip_space, next_escape, key_idx, val_idx, inside_quotes, data@, at as int), line: line_(line), out: lines_(lines@) };
    proof {
        let dt = self.default_time; let c = data@[at as int]; let i = at as int; lemma_prefix(start(), data@, i, dt); lemma_flags(m0, c, dt); lemma_views();
        if step(m0, c, dt) is None { lemma_dead(start(), data@, i + 1, dt); }
        assert forall|k: int| 0 <= k <= i implies #[trigger] data@.subrange(k, i + 1) == data@.subrange(k, i).push(c) by { assert(data@.subrange(k, i + 1) =~= data@.subrange(k, i).push(c)); }
        assert(data@.subrange(i, i + 1) =~= seq![c]); assert(data@.subrange(i + 1, i + 1) =~= Seq::empty());
    }
@end
proof fn lemma_views() ensures
    forall|v: Seq<(Vec<u8>, Vec<u8>)>, x: (Vec<u8>, Vec<u8>)| #[trigger] tags_(v.push(x)) == tags_(v).push((x.0@, x.1@)),
    forall|v: Seq<(Vec<u8>, FieldValue)>, x: (Vec<u8>, FieldValue)| #[trigger] fields_(v.push(x)) == fields_(v).push((x.0@, fv(x.1))),
    forall|v: Seq<Line>, x: Line| #[trigger] lines_(v.push(x)) == lines_(v).push(line_(x)) {
    assert forall|v: Seq<(Vec<u8>, Vec<u8>)>, x: (Vec<u8>, Vec<u8>)| #[trigger] tags_(v.push(x)) == tags_(v).push((x.0@, x.1@)) by { assert(tags_(v.push(x)) =~= tags_(v).push((x.0@, x.1@))); }
    assert forall|v: Seq<(Vec<u8>, FieldValue)>, x: (Vec<u8>, FieldValue)| #[trigger] fields_(v.push(x)) == fields_(v).push((x.0@, fv(x.1))) by { assert(fields_(v.push(x)) =~= fields_(v).push((x.0@, fv(x.1)))); }
    assert forall|v: Seq<Line>, x: Line| #[trigger] lines_(v.push(x)) == lines_(v).push(line_(x)) by { assert(lines_(v.push(x)) =~= lines_(v).push(line_(x))); }
}
// ==== what the language says ====
proof fn lemma_cat(m: M, a: B, b: B, dt: i64) ensures run(m, a + b, dt) == (match run(m, a, dt) { None => None, Some(n) => run(n, b, dt) }) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { lemma_cat(m, a, b.drop_last(), dt); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
// ---- a batch is its lines ----
spec fn after(o: Seq<L>, m: M) -> M { M { out: o + m.out, ..m } }
proof fn lemma_after(o: Seq<L>, m: M, s: B, dt: i64) ensures run(after(o, m), s, dt) == (match run(m, s, dt) { None => None, Some(n) => Some(after(o, n)) }) decreases s.len() {
    if s.len() > 0 { lemma_after(o, m, s.drop_last(), dt); assert forall|x: Seq<L>, l: L| #[trigger] (o + x.push(l)) == (o + x).push(l) by { assert(o + x.push(l) =~= (o + x).push(l)); } }
}
// a newline at the end makes no difference
proof fn lemma_newline(a: B, dt: i64) ensures parsed(a.push(10), dt) matches Some(v) ==> parsed(a, dt) == Some(v) {
    let b = a.push(10u8); assert(b.drop_last() =~= a);
}
// a text of whole lines, then another: each as it is alone; a text that is refused is refused in any batch
spec fn whole(a: B, dt: i64) -> bool { run(start(), a, dt) matches Some(m) ==> m.st == (St::Begin { comment: false }) && m.line == no_line() }
proof fn lemma_batch(a: B, b: B, dt: i64) requires whole(a, dt) ensures
    parsed(a + b, dt) == (match parsed(a, dt) { None => None, Some(x) => match parsed(b, dt) { None => None, Some(y) => Some(x + y) } }) {
    lemma_cat(start(), a, b, dt);
    if let Some(m) = run(start(), a, dt) {
        lemma_after(m.out, start(), b, dt); assert(m.out + start().out =~= m.out);
        if let Some(n) = run(start(), b, dt) { assert forall|x: Seq<L>, l: L| #[trigger] (m.out + x.push(l)) == (m.out + x).push(l) by { assert(m.out + x.push(l) =~= (m.out + x).push(l)); } }
    }
}
// ---- tokens: what is written is what is read ----
spec fn plain(c: u8) -> bool { c != 92 && !nl(c) }
spec fn sep(c: u8, eq: bool) -> bool { c == 44 || c == 32 || (eq && c == 61) }
spec fn esc1(c: u8, eq: bool) -> B { if sep(c, eq) { seq![92u8, c] } else { seq![c] } }
spec fn enc(t: B, eq: bool) -> B decreases t.len() { if t.len() == 0 { Seq::empty() } else { enc(t.drop_last(), eq) + esc1(t.last(), eq) } }
spec fn marked(t: B, eq: bool) -> bool decreases t.len() { t.len() > 0 && (marked(t.drop_last(), eq) || sep(t.last(), eq)) }
spec fn name(t: B) -> bool { forall|i: int| 0 <= i < t.len() ==> plain(#[trigger] t[i]) }
proof fn lemma_un2(s: B, c: u8) requires s.len() > 0 ensures un(s.push(c)) == (match un(s) { None => None, Some(o) => if special(c) && s.last() == 92 { Some(o) } else if c == 44 || c == 32 { None } else { Some(o.push(s.last())) } }) { let p = s.push(c); assert(p.drop_last() =~= s); assert(p[p.len() - 2] == s.last()); }
proof fn lemma_token(t: B, eq: bool) requires name(t) ensures token(enc(t, eq), marked(t, eq)) == Some(t), t.len() > 0 ==> enc(t, eq).len() > 0 && un(enc(t, eq)) == Some(t.drop_last()) && enc(t, eq).last() == t.last() decreases t.len() {
    if t.len() > 0 {
        let u = t.drop_last(); let c = t.last(); let e = enc(u, eq); lemma_token(u, eq); assert(plain(t[t.len() - 1]));
        if u.len() > 0 { assert(plain(u[u.len() - 1])) by { assert(plain(t[t.len() - 2])); } assert(u.drop_last().push(u.last()) =~= u); }
        if sep(c, eq) {
            let f = e.push(92); assert(e + esc1(c, eq) =~= f.push(c));
            if e.len() > 0 { lemma_un2(e, 92); } else { assert(u.len() == 0); assert(u =~= Seq::empty()); }
            assert(un(f) == Some(u)); lemma_un2(f, c);
        } else {
            assert(e + esc1(c, eq) =~= e.push(c));
            if e.len() > 0 { lemma_un2(e, c); } else { assert(u =~= Seq::empty()); }
        }
        assert(u.push(c) =~= t); if !marked(t, eq) { assert(e == u); }
    } else { assert(t =~= Seq::empty()); }
}
spec fn grow(st: St, r: B, f: bool) -> St {
    match st { St::Table { key, kf, esc } => St::Table { key: key + r, kf: kf || f, esc }, St::TagKey { key, kf, esc } => St::TagKey { key: key + r, kf: kf || f, esc }, St::FieldKey { key, kf, esc } => St::FieldKey { key: key + r, kf: kf || f, esc }, St::TagVal { key, kf, val, vf, esc } => St::TagVal { key, kf, val: val + r, vf: vf || f, esc }, St::FieldVal { key, kf, val, vf, esc, q } => St::FieldVal { key, kf, val: val + r, vf: vf || f, esc, q }, s => s }
}
spec fn in_token(st: St, eq: bool) -> bool { match st { St::Table { key, kf, esc } => !esc && !eq, St::TagKey { key, kf, esc } => !esc && eq, St::FieldKey { key, kf, esc } => !esc && eq, St::TagVal { key, kf, val, vf, esc } => !esc && eq, _ => false } }
proof fn lemma_grow1(st: St, r: B, c: u8, f: bool, g: bool) ensures grow(grow(st, r, f), seq![c], g) == grow(st, r.push(c), f || g), grow(st, Seq::empty(), false) == st {
    match st { St::Table { key, .. } => { assert(key + r + seq![c] =~= key + r.push(c)); assert(key + Seq::empty() =~= key); }, St::TagKey { key, .. } => { assert(key + r + seq![c] =~= key + r.push(c)); assert(key + Seq::empty() =~= key); }, St::FieldKey { key, .. } => { assert(key + r + seq![c] =~= key + r.push(c)); assert(key + Seq::empty() =~= key); }, St::TagVal { val, .. } => { assert(val + r + seq![c] =~= val + r.push(c)); assert(val + Seq::empty() =~= val); }, St::FieldVal { val, .. } => { assert(val + r + seq![c] =~= val + r.push(c)); assert(val + Seq::empty() =~= val); }, _ => {} }
}
// one more character, or an escaped one
proof fn lemma_run1(m: M, c: u8, dt: i64) ensures run(m, seq![c], dt) == step(m, c, dt) { let s = seq![c]; assert(s.drop_last() =~= Seq::empty()); assert(run(m, s.drop_last(), dt) == Some(m)); }
proof fn lemma_char(m: M, c: u8, eq: bool, dt: i64) requires in_token(m.st, eq), plain(c), !sep(c, eq) ensures run(m, seq![c], dt) == Some(M { st: grow(m.st, seq![c], false), ..m }) {
    lemma_run1(m, c, dt);
    assert forall|x: B| #[trigger] x.push(c) == x + seq![c] by { assert(x.push(c) =~= x + seq![c]); }
}
proof fn lemma_esc(m: M, c: u8, eq: bool, dt: i64) requires in_token(m.st, eq), sep(c, eq) ensures run(m, seq![92u8, c], dt) == Some(M { st: grow(m.st, seq![92u8, c], true), ..m }) {
    assert(seq![92u8, c] =~= seq![92u8] + seq![c]); lemma_cat(m, seq![92u8], seq![c], dt); lemma_run1(m, 92, dt); lemma_run1(step(m, 92, dt)->0, c, dt);
    assert forall|x: B| #[trigger] x.push(92u8).push(c) == x + seq![92u8, c] by { assert(x.push(92u8).push(c) =~= x + seq![92u8, c]); }
}
proof fn lemma_grow2(st: St, a: B, b: B, f: bool, g: bool) ensures grow(grow(st, a, f), b, g) == grow(st, a + b, f || g) {
    assert forall|x: B| #[trigger] (x + a + b) == x + (a + b) by { assert(x + a + b =~= x + (a + b)); }
}
proof fn lemma_name(m: M, t: B, eq: bool, dt: i64) requires in_token(m.st, eq), name(t) ensures run(m, enc(t, eq), dt) == Some(M { st: grow(m.st, enc(t, eq), marked(t, eq)), ..m }) decreases t.len() {
    lemma_grow1(m.st, Seq::empty(), 0, false, false);
    if t.len() > 0 {
        let u = t.drop_last(); let c = t.last(); lemma_name(m, u, eq, dt); let n = M { st: grow(m.st, enc(u, eq), marked(u, eq)), ..m }; lemma_cat(m, enc(u, eq), esc1(c, eq), dt); assert(plain(t[t.len() - 1]));
        assert(in_token(n.st, eq)); if sep(c, eq) { lemma_esc(n, c, eq, dt); } else { lemma_char(n, c, eq, dt); }
        lemma_grow2(m.st, enc(u, eq), esc1(c, eq), marked(u, eq), sep(c, eq));
    }
}
// ---- strings, and other values ----
spec fn quoted(c: u8) -> bool { c == 34 || c == 92 }
spec fn encs1(c: u8) -> B { if quoted(c) { seq![92u8, c] } else { seq![c] } }
spec fn encs(t: B) -> B decreases t.len() { if t.len() == 0 { Seq::empty() } else { encs(t.drop_last()) + encs1(t.last()) } }
spec fn marks(t: B) -> bool decreases t.len() { t.len() > 0 && (marks(t.drop_last()) || quoted(t.last())) }
proof fn lemma_us2(s: B, b: u8) requires s.len() > 0 ensures us(s.push(b)) == (match us(s) { None => None, Some(o) => if s.last() == 92 && quoted(b) && o.1 && b == 34 { None } else if s.last() == 92 && quoted(b) && !o.1 { Some((o.0, true)) } else { Some((o.0.push(s.last()), false)) } }) { let p = s.push(b); assert(p.drop_last() =~= s); assert(p[p.len() - 2] == s.last()); }
proof fn lemma_text(t: B) ensures text(encs(t), marks(t)) == Some(t), t.len() > 0 ==> encs(t).len() > 0 && us(encs(t)) == Some((t.drop_last(), quoted(t.last()))) && encs(t).last() == t.last() decreases t.len() {
    if t.len() > 0 {
        let u = t.drop_last(); let c = t.last(); let e = encs(u); lemma_text(u); if u.len() > 0 { assert(u.drop_last().push(u.last()) =~= u); } else { assert(u =~= Seq::empty()); }
        if quoted(c) {
            let f = e.push(92u8); assert(e + encs1(c) =~= f.push(c)); if e.len() > 0 { lemma_us2(e, 92); } assert(us(f) == Some((u, false))); lemma_us2(f, c);
        } else { assert(e + encs1(c) =~= e.push(c)); if e.len() > 0 { lemma_us2(e, c); } }
        assert(u.push(c) =~= t); if !marks(t) { assert(e == u); }
    } else { assert(t =~= Seq::empty()); }
}
spec fn in_val(st: St, quote: bool) -> bool { st matches St::FieldVal { key, kf, val, vf, esc, q } && !esc && q == quote }
proof fn lemma_body(m: M, t: B, dt: i64) requires in_val(m.st, true) ensures run(m, encs(t), dt) == Some(M { st: grow(m.st, encs(t), marks(t)), ..m }) decreases t.len() {
    lemma_grow1(m.st, Seq::empty(), 0, false, false);
    if t.len() > 0 {
        let u = t.drop_last(); let c = t.last(); lemma_body(m, u, dt); let n = M { st: grow(m.st, encs(u), marks(u)), ..m }; lemma_cat(m, encs(u), encs1(c), dt); assert(in_val(n.st, true));
        if quoted(c) {
            assert(seq![92u8, c] =~= seq![92u8] + seq![c]); lemma_cat(n, seq![92u8], seq![c], dt); lemma_run1(n, 92, dt); lemma_run1(step(n, 92, dt)->0, c, dt);
            assert forall|x: B| #[trigger] x.push(92u8).push(c) == x + seq![92u8, c] by { assert(x.push(92u8).push(c) =~= x + seq![92u8, c]); }
        } else { lemma_run1(n, c, dt); assert forall|x: B| #[trigger] x.push(c) == x + seq![c] by { assert(x.push(c) =~= x + seq![c]); } }
        lemma_grow2(m.st, encs(u), encs1(c), marks(u), quoted(c));
    }
}
// a number or a boolean as it is written, or a string
ghost enum PV { Raw(B), Text(B) }
spec fn bare(c: u8) -> bool { c != 44 && c != 32 && !quoted(c) && !nl(c) }
spec fn pv_ok(v: PV) -> bool { match v { PV::Raw(r) => value(r, false) is Some && forall|i: int| 0 <= i < r.len() ==> bare(#[trigger] r[i]), PV::Text(t) => true } }
spec fn pv_text(v: PV) -> B { match v { PV::Raw(r) => r, PV::Text(t) => seq![34u8] + encs(t) + seq![34u8] } }
spec fn pv_mark(v: PV) -> bool { match v { PV::Raw(r) => false, PV::Text(t) => marks(t) } }
spec fn pv_of(v: PV) -> FV { match v { PV::Raw(r) => value(r, false)->0, PV::Text(t) => FV::Str(t) } }
proof fn lemma_bare(m: M, r: B, dt: i64) requires in_val(m.st, false), forall|i: int| 0 <= i < r.len() ==> bare(#[trigger] r[i]) ensures run(m, r, dt) == Some(M { st: grow(m.st, r, false), ..m }) decreases r.len() {
    lemma_grow1(m.st, Seq::empty(), 0, false, false);
    if r.len() > 0 { let u = r.drop_last(); let c = r.last(); assert forall|i: int| 0 <= i < u.len() implies bare(#[trigger] u[i]) by { assert(u[i] == r[i]); } lemma_bare(m, u, dt); assert(bare(r[r.len() - 1])); lemma_grow1(m.st, u, c, false, false); assert(u.push(c) =~= r); assert forall|x: B| #[trigger] x.push(c) == x + seq![c] by { assert(x.push(c) =~= x + seq![c]); } }
    else { assert(r =~= Seq::empty()); }
}
proof fn lemma_value(v: PV) requires pv_ok(v) ensures value(pv_text(v), pv_mark(v)) == Some(pv_of(v)) {
    if let PV::Text(t) = v { let x = pv_text(v); assert(x.subrange(1, x.len() - 1) =~= encs(t)); assert(x[0] == 34 && x.last() == 34); lemma_text(t); }
}
spec fn fval(key: B, kf: bool) -> St { St::FieldVal { key, kf, val: Seq::empty(), vf: false, esc: false, q: false } }
proof fn lemma_val(m: M, key: B, kf: bool, v: PV, dt: i64) requires m.st == fval(key, kf), pv_ok(v) ensures run(m, pv_text(v), dt) == Some(M { st: St::FieldVal { key, kf, val: pv_text(v), vf: pv_mark(v), esc: false, q: false }, ..m }) {
    match v {
        PV::Raw(r) => { lemma_bare(m, r, dt); assert(Seq::<u8>::empty() + r =~= r); }
        PV::Text(t) => {
            let a = seq![34u8]; let e = encs(t); lemma_cat(m, a + e, a, dt); lemma_cat(m, a, e, dt); lemma_run1(m, 34, dt); let n = step(m, 34, dt)->0; lemma_body(n, t, dt);
            let k = M { st: grow(n.st, e, marks(t)), ..n }; lemma_run1(k, 34, dt); assert(Seq::<u8>::empty().push(34u8) + e =~= a + e); assert((a + e).push(34u8) =~= a + e + a);
        }
    }
}
// ---- lines ----
ghost struct P { table: B, tags: Seq<(B, B)>, fields: Seq<(B, PV)>, ts: Option<B>, gaps: (nat, nat, nat) }
spec fn tags_text(t: Seq<(B, B)>) -> B decreases t.len() { if t.len() == 0 { Seq::empty() } else { tags_text(t.drop_last()) + (seq![44u8] + (enc(t.last().0, true) + (seq![61u8] + enc(t.last().1, true)))) } }
spec fn fields_text(t: Seq<(B, PV)>) -> B decreases t.len() { if t.len() == 0 { Seq::empty() } else { fields_text(t.drop_last()) + ((if t.len() == 1 { Seq::empty() } else { seq![44u8] }) + (enc(t.last().0, true) + (seq![61u8] + pv_text(t.last().1)))) } }
spec fn sp(n: nat) -> B { Seq::new(n, |i: int| 32u8) }
spec fn tail_text(p: P) -> B { match p.ts { None => sp(p.gaps.1), Some(raw) => seq![32u8] + (sp(p.gaps.1) + (raw + sp(p.gaps.2))) } }
spec fn line_text(p: P) -> B { enc(p.table, false) + (tags_text(p.tags) + (seq![32u8] + (sp(p.gaps.0) + (fields_text(p.fields) + (tail_text(p) + seq![10u8]))))) }
spec fn p_ok(p: P) -> bool {
    &&& p.table.len() > 0 && name(p.table) && p.table[0] != 35 && !(space(p.table[0]) && p.table[0] != 32)
    &&& forall|i: int| 0 <= i < p.tags.len() ==> name((#[trigger] p.tags[i]).0) && name(p.tags[i].1)
    &&& p.fields.len() > 0 && forall|i: int| 0 <= i < p.fields.len() ==> (#[trigger] p.fields[i]).0.len() > 0 && name(p.fields[i].0) && pv_ok(p.fields[i].1)
    &&& p.ts matches Some(raw) ==> raw.len() > 0 && int_text(raw) is Some && forall|i: int| 0 <= i < raw.len() ==> !space(#[trigger] raw[i])
}
spec fn fields_of(f: Seq<(B, PV)>) -> Seq<(B, FV)> { f.map_values(|x: (B, PV)| (x.0, pv_of(x.1))) }
spec fn point(p: P, dt: i64) -> L { L { table: p.table, tags: p.tags, fields: fields_of(p.fields), ts: match p.ts { None => dt, Some(raw) => int_text(raw)->0 } } }
proof fn lemma_sp(m: M, n: nat, dt: i64) requires m.st is Gap || m.st is Tail || m.st == (St::Begin { comment: false }) ensures run(m, sp(n), dt) == Some(m) decreases n { if n > 0 { lemma_sp(m, (n - 1) as nat, dt); assert(sp(n).drop_last() =~= sp((n - 1) as nat)); } }
proof fn lemma_same_start(m: M, n: M, s: B, dt: i64) requires s.len() > 0, step(m, s[0], dt) == step(n, s[0], dt) ensures run(m, s, dt) == run(n, s, dt) decreases s.len() {
    let a = seq![s[0]]; let b = s.subrange(1, s.len() as int); assert(s =~= a + b); lemma_cat(m, a, b, dt); lemma_cat(n, a, b, dt); lemma_run1(m, s[0], dt); lemma_run1(n, s[0], dt);
}
proof fn lemma_first(t: B, eq: bool) requires t.len() > 0 ensures enc(t, eq).len() > 0, enc(t, eq)[0] == (if sep(t[0], eq) { 92u8 } else { t[0] }) decreases t.len() {
    if t.len() > 1 { lemma_first(t.drop_last(), eq); } else { assert(enc(t.drop_last(), eq) =~= Seq::empty()); }
}
// after the table and n tags: what is open
spec fn head(m: M, table: B, t: Seq<(B, B)>) -> M {
    if t.len() == 0 { M { st: St::Table { key: enc(table, false), kf: marked(table, false), esc: false }, ..m } }
    else { M { st: St::TagVal { key: enc(t.last().0, true), kf: marked(t.last().0, true), val: enc(t.last().1, true), vf: marked(t.last().1, true), esc: false }, line: L { table, tags: t.drop_last(), ..m.line }, ..m } }
}
spec fn headed(m: M, table: B, t: Seq<(B, B)>, st: St) -> M { M { st, line: L { table, tags: t, ..m.line }, ..m } }
proof fn lemma_close_head(m: M, table: B, t: Seq<(B, B)>, dt: i64) requires name(table), m.line == no_line(), forall|i: int| 0 <= i < t.len() ==> name((#[trigger] t[i]).0) && name(t[i].1) ensures step(head(m, table, t), 44, dt) == Some(headed(m, table, t, key0())), step(head(m, table, t), 32, dt) == Some(headed(m, table, t, St::Gap)) {
    lemma_token(table, false); if t.len() > 0 { assert(name(t[t.len() - 1].0)); lemma_token(t.last().0, true); lemma_token(t.last().1, true); assert(t.drop_last().push(t.last()) =~= t); } else { assert(t =~= Seq::empty()); }
}
proof fn lemma_head(m: M, table: B, t: Seq<(B, B)>, dt: i64) requires name(table), table.len() > 0, table[0] != 35, !(space(table[0]) && table[0] != 32), m.st == (St::Begin { comment: false }), m.line == no_line(), forall|i: int| 0 <= i < t.len() ==> name((#[trigger] t[i]).0) && name(t[i].1) ensures run(m, enc(table, false) + tags_text(t), dt) == Some(head(m, table, t)) decreases t.len() {
    let e = enc(table, false);
    if t.len() == 0 {
        let n = M { st: St::Table { key: Seq::empty(), kf: false, esc: false }, ..m }; lemma_name(n, table, false, dt); lemma_first(table, false); let c = e[0]; assert(plain(table[0])); assert(Seq::<u8>::empty().push(c) =~= seq![c]); lemma_same_start(m, n, e, dt); assert(Seq::<u8>::empty() + e =~= e); assert(e + tags_text(t) =~= e);
    } else {
        let u = t.drop_last(); let k = t.last().0; let v = t.last().1; assert forall|i: int| 0 <= i < u.len() implies name((#[trigger] u[i]).0) && name(u[i].1) by { assert(u[i] == t[i]); } lemma_head(m, table, u, dt); assert(name(t[t.len() - 1].0));
        let ek = enc(k, true); let ev = enc(v, true); let x = e + tags_text(u); let c = seq![44u8]; let q = seq![61u8]; let y = c + (ek + (q + ev)); assert(e + tags_text(t) =~= x + y); lemma_cat(m, x, y, dt);
        let m1 = head(m, table, u); lemma_close_head(m, table, u, dt); lemma_cat(m1, c, ek + (q + ev), dt); lemma_run1(m1, 44, dt); let m2 = headed(m, table, u, key0());
        lemma_cat(m2, ek, q + ev, dt); lemma_name(m2, k, true, dt); let m3 = M { st: grow(m2.st, ek, marked(k, true)), ..m2 }; assert(Seq::<u8>::empty() + ek =~= ek);
        lemma_cat(m3, q, ev, dt); lemma_run1(m3, 61, dt); let m4 = step(m3, 61, dt)->0; lemma_name(m4, v, true, dt); assert(Seq::<u8>::empty() + ev =~= ev);
    }
}
spec fn body(m: M, f: Seq<(B, PV)>) -> M {
    if f.len() == 0 { M { st: St::Gap, ..m } } else { M { st: St::FieldVal { key: enc(f.last().0, true), kf: marked(f.last().0, true), val: pv_text(f.last().1), vf: pv_mark(f.last().1), esc: false, q: false }, line: L { fields: fields_of(f.drop_last()), ..m.line }, ..m } }
}
spec fn f_ok(f: Seq<(B, PV)>) -> bool { forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).0.len() > 0 && name(f[i].0) && pv_ok(f[i].1) }
spec fn bodied(m: M, f: Seq<(B, PV)>, st: St) -> M { M { st, line: L { fields: fields_of(f), ..m.line }, ..m } }
proof fn lemma_close_body(m: M, f: Seq<(B, PV)>, dt: i64) requires f_ok(f), f.len() > 0 ensures step(body(m, f), 44, dt) == Some(bodied(m, f, fkey0())), step(body(m, f), 32, dt) == Some(bodied(m, f, St::Tail)), step(body(m, f), 10, dt) == close(bodied(m, f, St::Tail), dt) {
    assert(name(f[f.len() - 1].0)); lemma_token(f.last().0, true); lemma_value(f.last().1); assert(fields_of(f.drop_last()).push((f.last().0, pv_of(f.last().1))) =~= fields_of(f));
}
proof fn lemma_fields(m: M, f: Seq<(B, PV)>, dt: i64) requires f_ok(f), m.st is Gap, m.line.fields == Seq::<(B, FV)>::empty() ensures run(m, fields_text(f), dt) == Some(body(m, f)) decreases f.len() {
    if f.len() > 0 {
        let u = f.drop_last(); let k = f.last().0; let v = f.last().1; assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).0.len() > 0 && name(u[i].0) && pv_ok(u[i].1) by { assert(u[i] == f[i]); } lemma_fields(m, u, dt); assert(name(f[f.len() - 1].0) && k.len() > 0);
        let x = fields_text(u); let ek = enc(k, true); let q = seq![61u8]; let z = ek + (q + pv_text(v)); let c = if f.len() == 1 { Seq::<u8>::empty() } else { seq![44u8] }; lemma_cat(m, x, c + z, dt); let m1 = body(m, u);
        let m2 = if f.len() == 1 { M { st: fkey0(), ..m } } else { bodied(m, u, fkey0()) };
        assert(run(m1, c + z, dt) == run(m2, z, dt)) by {
            if f.len() == 1 { assert(c + z =~= z); lemma_first(k, true); assert(plain(k[0])); assert(z[0] == ek[0]); assert(Seq::<u8>::empty().push(z[0]) =~= seq![z[0]]); lemma_same_start(m1, m2, z, dt); } else { lemma_cat(m1, c, z, dt); lemma_run1(m1, 44, dt); lemma_close_body(m, u, dt); }
        }
        lemma_cat(m2, ek, q + pv_text(v), dt); lemma_name(m2, k, true, dt); assert(Seq::<u8>::empty() + ek =~= ek); let m3 = M { st: grow(m2.st, ek, marked(k, true)), ..m2 };
        lemma_cat(m3, q, pv_text(v), dt); lemma_run1(m3, 61, dt); let m4 = step(m3, 61, dt)->0; lemma_val(m4, ek, marked(k, true), v, dt); assert(fields_of(u) =~= Seq::<(B, FV)>::empty() || u.len() > 0); 
    }
}
proof fn lemma_time(m: M, raw: B, dt: i64) requires m.st is Tail, raw.len() > 0, forall|i: int| 0 <= i < raw.len() ==> !space(#[trigger] raw[i]) ensures run(m, raw, dt) == Some(M { st: St::Time { raw }, ..m }) decreases raw.len() {
    let u = raw.drop_last(); let c = raw.last(); assert(!space(raw[raw.len() - 1])); assert(u.push(c) =~= raw);
    if u.len() > 0 { assert forall|i: int| 0 <= i < u.len() implies !space(#[trigger] u[i]) by { assert(u[i] == raw[i]); } lemma_time(m, u, dt); } else { assert(raw =~= seq![c]); lemma_run1(m, c, dt); }
}
proof fn lemma_tail(m: M, p: P, dt: i64) requires p_ok(p) ensures run(body(m, p.fields), tail_text(p) + seq![10u8], dt) == close(bodied(m, p.fields, St::Tail), match p.ts { None => dt, Some(raw) => int_text(raw)->0 }) {
    let m0 = body(m, p.fields); let e = seq![10u8]; let f = bodied(m, p.fields, St::Tail); lemma_close_body(m, p.fields, dt); lemma_cat(m0, tail_text(p), e, dt); let g = p.gaps.1; let a = seq![32u8]; lemma_run1(m0, 32, dt); lemma_run1(m0, 10, dt); lemma_run1(f, 10, dt);
    match p.ts {
        None => { if g == 0 { assert(tail_text(p) =~= Seq::empty()); } else { assert(sp(g) =~= a + sp((g - 1) as nat)); lemma_cat(m0, a, sp((g - 1) as nat), dt); lemma_sp(f, (g - 1) as nat, dt); } }
        Some(raw) => {
            let h = p.gaps.2; lemma_cat(m0, a, sp(g) + (raw + sp(h)), dt); lemma_cat(f, sp(g), raw + sp(h), dt); lemma_sp(f, g, dt); lemma_cat(f, raw, sp(h), dt); lemma_time(f, raw, dt); let t = M { st: St::Time { raw }, ..f }; let k = int_text(raw)->0; let z = close(f, k)->0;
            if h == 0 { assert(sp(h) =~= Seq::empty()); lemma_run1(t, 10, dt); } else { assert(sp(h) =~= a + sp((h - 1) as nat)); lemma_cat(t, a, sp((h - 1) as nat), dt); lemma_run1(t, 32, dt); lemma_sp(z, (h - 1) as nat, dt); lemma_run1(z, 10, dt); }
        }
    }
}
// a point that is written is the point that is read, whatever comes before
proof fn lemma_line(m: M, p: P, dt: i64) requires p_ok(p), m.st == (St::Begin { comment: false }), m.line == no_line() ensures run(m, line_text(p), dt) == Some(M { out: m.out.push(tidy(point(p, dt))), ..m }) {
    let e = enc(p.table, false); let t = tags_text(p.tags); let r2 = fields_text(p.fields) + (tail_text(p) + seq![10u8]); let r1 = sp(p.gaps.0) + r2; let r0 = seq![32u8] + r1; assert(line_text(p) =~= (e + t) + r0); lemma_cat(m, e + t, r0, dt); lemma_head(m, p.table, p.tags, dt);
    let m1 = head(m, p.table, p.tags); lemma_close_head(m, p.table, p.tags, dt); lemma_cat(m1, seq![32u8], r1, dt); lemma_run1(m1, 32, dt); let m2 = headed(m, p.table, p.tags, St::Gap); lemma_cat(m2, sp(p.gaps.0), r2, dt); lemma_sp(m2, p.gaps.0, dt);
    lemma_cat(m2, fields_text(p.fields), tail_text(p) + seq![10u8], dt); lemma_fields(m2, p.fields, dt); lemma_tail(m2, p, dt);
}
// ---- batches of points, comments and blank lines ----
ghost enum Item { Point(P), Comment(B), Blank(B) }
spec fn i_ok(x: Item) -> bool { match x { Item::Point(p) => p_ok(p), Item::Comment(c) => forall|i: int| 0 <= i < c.len() ==> !nl(#[trigger] c[i]), Item::Blank(c) => forall|i: int| 0 <= i < c.len() ==> space(#[trigger] c[i]) } }
spec fn i_text(x: Item) -> B { match x { Item::Point(p) => line_text(p), Item::Comment(c) => seq![35u8] + (c + seq![10u8]), Item::Blank(c) => c + seq![10u8] } }
spec fn i_points(x: Item, dt: i64) -> Seq<L> { match x { Item::Point(p) => seq![tidy(point(p, dt))], _ => Seq::empty() } }
spec fn batch(v: Seq<Item>) -> B decreases v.len() { if v.len() == 0 { Seq::empty() } else { batch(v.drop_last()) + i_text(v.last()) } }
spec fn points(v: Seq<Item>, dt: i64) -> Seq<L> decreases v.len() { if v.len() == 0 { Seq::empty() } else { points(v.drop_last(), dt) + i_points(v.last(), dt) } }
proof fn lemma_comment(m: M, c: B, dt: i64) requires m.st == (St::Begin { comment: true }), forall|i: int| 0 <= i < c.len() ==> !nl(#[trigger] c[i]) ensures run(m, c, dt) == Some(m) decreases c.len() { if c.len() > 0 { let u = c.drop_last(); assert forall|i: int| 0 <= i < u.len() implies !nl(#[trigger] u[i]) by { assert(u[i] == c[i]); } lemma_comment(m, u, dt); assert(!nl(c[c.len() - 1])); } }
proof fn lemma_blank(m: M, c: B, dt: i64) requires m.st == (St::Begin { comment: false }), forall|i: int| 0 <= i < c.len() ==> space(#[trigger] c[i]) ensures run(m, c, dt) == Some(m) decreases c.len() { if c.len() > 0 { let u = c.drop_last(); assert forall|i: int| 0 <= i < u.len() implies space(#[trigger] u[i]) by { assert(u[i] == c[i]); } lemma_blank(m, u, dt); assert(space(c[c.len() - 1])); } }
proof fn lemma_item(m: M, x: Item, dt: i64) requires i_ok(x), m.st == (St::Begin { comment: false }), m.line == no_line() ensures run(m, i_text(x), dt) == Some(M { out: m.out + i_points(x, dt), ..m }) {
    assert(m.out + Seq::<L>::empty() =~= m.out); lemma_run1(m, 10, dt);
    match x {
        Item::Point(p) => { lemma_line(m, p, dt); assert(m.out + seq![tidy(point(p, dt))] =~= m.out.push(tidy(point(p, dt)))); }
        Item::Comment(c) => { lemma_cat(m, seq![35u8], c + seq![10u8], dt); lemma_run1(m, 35, dt); let n = M { st: St::Begin { comment: true }, ..m }; lemma_cat(n, c, seq![10u8], dt); lemma_comment(n, c, dt); lemma_run1(n, 10, dt); }
        Item::Blank(c) => { lemma_cat(m, c, seq![10u8], dt); lemma_blank(m, c, dt); }
    }
}
proof fn lemma_items(v: Seq<Item>, dt: i64) requires forall|i: int| 0 <= i < v.len() ==> i_ok(#[trigger] v[i]) ensures run(start(), batch(v), dt) == Some(M { out: points(v, dt), ..start() }) decreases v.len() {
    if v.len() > 0 { let u = v.drop_last(); assert forall|i: int| 0 <= i < u.len() implies i_ok(#[trigger] u[i]) by { assert(u[i] == v[i]); } lemma_items(u, dt); assert(i_ok(v[v.len() - 1])); lemma_cat(start(), batch(u), i_text(v.last()), dt); lemma_item(M { out: points(u, dt), ..start() }, v.last(), dt); }
}
// every batch is read as its points; and also without the newline at its end
proof fn theorem_round_trip(v: Seq<Item>, dt: i64) requires forall|i: int| 0 <= i < v.len() ==> i_ok(#[trigger] v[i]) ensures parsed(batch(v), dt) == Some(points(v, dt)), v.len() > 0 ==> parsed(batch(v).drop_last(), dt) == Some(points(v, dt)) {
    lemma_items(v, dt); let b = batch(v);
    if v.len() > 0 { assert(b.len() > 0 && b.last() == 10) by { let t = i_text(v.last()); assert(t.last() == 10) by { if let Item::Point(p) = v.last() { let x = tail_text(p) + seq![10u8]; assert(x.last() == 10); let y = fields_text(p.fields) + x; assert(y.last() == 10); let z = sp(p.gaps.0) + y; assert(z.last() == 10); let w = seq![32u8] + z; assert(w.last() == 10); let k = tags_text(p.tags) + w; assert(k.last() == 10); } } assert(b.last() == t.last()); } assert(b.drop_last().push(10u8) =~= b); lemma_newline(b.drop_last(), dt); }
}
fn main() {}
}
