use vstd::prelude::*;
verus! {
global size_of usize == 8;
type B = Seq<u8>;
struct Error {}
type Result<T> = std::result::Result<T, Error>;
enum FieldValue { U64(u64), I64(i64), Str(Vec<u8>), F64(f64), Bool(bool) }
// what std makes of a text: a number, its words
spec fn int_text(s: B) -> Option<i64>;
spec fn float_text(s: B) -> Option<f64>;
spec fn words(s: B) -> Seq<B>;
spec fn utf8_text(s: B) -> bool;
#[verifier::external_body] fn parse_i64(s: &[u8]) -> (r: Result<i64>) ensures r matches Ok(k) ==> int_text(s@) == Some(k), r is Err ==> int_text(s@) is None { unimplemented!() }
#[verifier::external_body] fn parse_f64(s: &[u8]) -> (r: Result<f64>) ensures r matches Ok(k) ==> float_text(s@) == Some(k), r is Err ==> float_text(s@) is None { unimplemented!() }
#[verifier::external_body] fn utf8(s: &[u8]) -> (r: Result<&[u8]>) ensures r matches Ok(t) ==> t@ == s@ && utf8_text(s@), r is Err ==> !utf8_text(s@) { unimplemented!() }
#[verifier::external_body] fn split_words(s: &[u8]) -> (r: Vec<&[u8]>) ensures texts(r@) == words(s@) { unimplemented!() }
#[verifier::external_body] fn sub(s: &[u8], a: usize, b: usize) -> (r: &[u8]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { &s[a..b] }
spec fn texts(v: Seq<&[u8]>) -> Seq<B> { v.map_values(|t: &[u8]| t@) }
// the pieces of a text between separators
spec fn pieces(s: B, sep: u8) -> Seq<B> decreases s.len() {
    let n = first(s, sep);
    if n < 0 || n >= s.len() { seq![s] } else { seq![s.subrange(0, n)] + pieces(s.subrange(n + 1, s.len() as int), sep) }
}
spec fn first(s: B, c: u8) -> int decreases s.len() { if s.len() == 0 { -1 } else if s[0] == c { 0 } else { let r = first(s.skip(1), c); if r < 0 { -1 } else { r + 1 } } }
proof fn lemma_first(s: B, c: u8) ensures -1 <= first(s, c) < s.len(), first(s, c) >= 0 ==> s[first(s, c)] == c decreases s.len() { if s.len() > 0 && s[0] != c { lemma_first(s.skip(1), c); } }
#[verifier::external_body] fn find_line(s: &[u8], pos: usize) -> (r: Option<usize>) requires pos <= s@.len()
    ensures r matches Some(n) ==> n == first(s@.skip(pos as int), 10) && pos + n < s@.len(), r is None ==> first(s@.skip(pos as int), 10) < 0 { unimplemented!() }
#[verifier::external_body] fn split_plain(s: &[u8], sep: u8) -> (r: Vec<&[u8]>) ensures texts(r@) == pieces(s@, sep) { unimplemented!() }
#[verifier::external_body] fn retain_some(v: &mut Vec<&[u8]>) ensures texts(final(v)@) == kept(texts(old(v)@)) { unimplemented!() }
spec fn kept(t: Seq<B>) -> Seq<B> decreases t.len() { if t.len() == 0 { t } else if t.last().len() == 0 { kept(t.drop_last()) } else { kept(t.drop_last()).push(t.last()) } }
spec fn no_cr(s: B) -> B { if s.len() > 0 && s.last() == 13 { s.drop_last() } else { s } }
#[verifier::external_body] fn strip_cr(s: &[u8]) -> (r: &[u8]) ensures r@ == no_cr(s@) { unimplemented!() }
fn text_is(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { eq_bytes(a, b) }
#[verifier::external_body] fn eq_bytes(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { a == b }
spec fn put_() -> B { seq![112u8, 117, 116] }
#[verifier::external_body] fn put_word() -> (r: &'static [u8]) ensures r@ == put_() { b"put" }
spec fn value_() -> B { seq![118u8, 97, 108, 117, 101] }
#[verifier::external_body] fn value_name() -> (r: &'static [u8]) ensures r@ == value_() { b"value" }
// ---- a point ----
ghost struct P { table: B, ts: i64, value: f64, tags: Seq<(B, B)> }
struct Line<'a> { hash_id: u64, table: &'a [u8], tags: Vec<(&'a [u8], &'a [u8])>, fields: Vec<(&'a [u8], FieldValue)>, timestamp: i64 }
spec fn tags_(v: Seq<(&[u8], &[u8])>) -> Seq<(B, B)> { v.map_values(|x: (&[u8], &[u8])| (x.0@, x.1@)) }
spec fn is_point(l: Line, p: P) -> bool { l.table@ == p.table && l.timestamp == p.ts && tags_(l.tags@) == p.tags && l.fields@.len() == 1 && l.fields@[0].0@ == value_() && l.fields@[0].1 == FieldValue::F64(p.value) }
spec fn tidy(t: Seq<(B, B)>) -> Seq<(B, B)>; // by name, the first of a name: C22, C35
spec fn tidy_p(p: P) -> P { P { tags: tidy(p.tags), ..p } }
impl<'a> Line<'a> {
    #[verifier::external_body] fn sort_dedup_and_hash(&mut self)
        ensures tags_(final(self).tags@) == tidy(tags_(old(self).tags@)), final(self).table@ == old(self).table@, final(self).timestamp == old(self).timestamp, old(self).fields@.len() == 1 ==> final(self).fields@ == old(self).fields@ { unimplemented!() }
}
spec fn are_points(v: Seq<Line>, p: Seq<P>) -> bool { v.len() == p.len() && forall|i: int| 0 <= i < v.len() ==> is_point(#[trigger] v[i], p[i]) }
// ---- unescaped separators ----
spec fn cut(s: B, sep: u8, i: int, begin: int, esc: bool) -> Seq<B> decreases s.len() - i {
    if i >= s.len() { seq![s.subrange(begin, s.len() as int)] }
    else if esc { cut(s, sep, i + 1, begin, false) }
    else if s[i] == 92 { cut(s, sep, i + 1, begin, true) }
    else if s[i] == sep { seq![s.subrange(begin, i)] + cut(s, sep, i + 1, i + 1, false) }
    else { cut(s, sep, i + 1, begin, false) }
}
spec fn parts_of(s: B, sep: u8) -> Seq<B> { cut(s, sep, 0, 0, false) }
//@extract common/protocol_parser/src/lib.rs fn split_unescaped
@subst /buf: &str, separator: char\) -> Vec<&str>/ => buf: &[u8], separator: u8) -> Vec<&[u8]>
@subst /for \(i, c\) in buf\.char_indices\(\) \{/ => let mut next = 0usize; while next < buf.len() { let i = next; let c = buf[i]; next = next + 1;
@subst /'\\\\'/ => 92u8
@subst /&buf\[begin\.\.i\]/ => sub(buf, begin, i)
@subst /&buf\[begin\.\.\]/ => sub(buf, begin, buf.len())
@subst /separator\.len_utf8\(\)/ => 1
@subst /let mut parts = Vec::new\(\);/ => let mut parts: Vec<&[u8]> = Vec::new();
@ret r
@spec
    requires separator != 92
    ensures texts(r@) == parts_of(buf@, separator), r@.len() >= 1
@loop 0
    invariant begin <= next <= buf@.len(), separator != 92, parts_of(buf@, separator) =~= texts(parts@) + cut(buf@, separator, next as int, begin as int, escaped)
    decreases buf@.len() - next
@at loop-start 0
    let ghost p0 = parts@;
@at after /parts\.push\(sub\(buf, begin, i\)\);/
    proof { assert(texts(parts@) =~= texts(p0).push(buf@.subrange(begin as int, i as int))); }
@at before /parts\.push\(sub\(buf, begin, buf\.len\(\)\)\);/
    let ghost q0 = parts@;
@at after /parts\.push\(sub\(buf, begin, buf\.len\(\)\)\);/
    proof { assert(texts(parts@) =~= texts(q0).push(buf@.subrange(begin as int, buf@.len() as int))); }
@end
// ---- a line of a body: what it says, by the tokens it is made of ----
ghost enum Said { Nothing, Point(P), Bad }
spec fn tokens_of(s: B) -> Seq<B> { kept(parts_of(no_cr(s), 32)) }
spec fn tag_ok(t: Seq<B>) -> bool { t.len() == 2 && t[0].len() > 0 && t[1].len() > 0 }
spec fn raw_ok(raws: Seq<B>, k: int) -> bool { forall|i: int| 0 <= i < k ==> tag_ok(#[trigger] parts_of(raws[i], 61)) }
spec fn raw_tags(raws: Seq<B>, k: int) -> Seq<(B, B)> decreases k { if k <= 0 { Seq::empty() } else { raw_tags(raws, k - 1).push((parts_of(raws[k - 1], 61)[0], parts_of(raws[k - 1], 61)[1])) } }
spec fn all_ok(t: Seq<B>, k: int) -> bool { forall|i: int| 3 <= i < k ==> raw_ok(#[trigger] parts_of(t[i], 44), parts_of(t[i], 44).len() as int) }
spec fn all_tags(t: Seq<B>, k: int) -> Seq<(B, B)> decreases k { if k <= 3 { Seq::empty() } else { all_tags(t, k - 1) + raw_tags(parts_of(t[k - 1], 44), parts_of(t[k - 1], 44).len() as int) } }
spec fn says(s: B) -> Said {
    let t = tokens_of(s);
    if t.len() == 0 { Said::Nothing } else if t.len() < 4 || int_text(t[1]) is None || float_text(t[2]) is None || !all_ok(t, t.len() as int) { Said::Bad }
    else { Said::Point(P { table: t[0], ts: int_text(t[1])->0, value: float_text(t[2])->0, tags: all_tags(t, t.len() as int) }) }
}
struct Parser {}
//@extract common/protocol_parser/src/open_tsdb/parser.rs Parser::next_line
@header impl Parser
@subst /buf: &'a str\)/ => buf: &'a [u8])
@subst /split_unescaped\(buf\.strip_suffix\('\\r'\)\.unwrap_or\(buf\), ' '\)/ => split_unescaped(strip_cr(buf), 32)
@subst /tokens\.retain\(\|token\| !token\.is_empty\(\)\);/ => retain_some(&mut tokens);
@subst /Err\((?:Error::)?(?:Common|MissingField) \{[\s\S]*?\n\s*\}\)/ => Err(Error {})
@subst /Cow::Borrowed\(tokens\[0\]\)/ => tokens[0]
@subst /tokens\[1\]\.parse::<i64>\(\)\.map_err\([\s\S]*?\}\)\?/ => parse_i64(tokens[1])?
@subst /tokens\[2\]\.parse::<f64>\(\)\.map_err\([\s\S]*?\}\)\?/ => parse_f64(tokens[2])?
@subst /let mut tags = / => let mut tags: Vec<(&[u8], &[u8])> = 
@subst /for token in tokens\.iter\(\)\.skip\(3\) \{/ => let mut i = 3usize; while i < tokens.len() { let token = tokens[i]; i = i + 1; let raws = split_unescaped(token, 44);
@subst /for tag_raw in split_unescaped\(token, ','\) \{/ => let mut j = 0usize; while j < raws.len() { let tag_raw = raws[j]; j = j + 1;
@subst /split_unescaped\(tag_raw, '='\)/ => split_unescaped(tag_raw, 61)
@subst /\(Cow::Borrowed\(tag\[0\]\), Cow::Borrowed\(tag\[1\]\)\)/ => (tag[0], tag[1])
@subst /Cow::Borrowed\(OPEN_TSDB_DEFAULT_FIELD\)/ => value_name()
@subst /tag\[(\d)\]\.is_empty\(\)/ => (tag[\1].len() == 0)
@ret r
@spec
    ensures
        r matches Ok(None) ==> says(buf@) is Nothing,
        r matches Ok(Some(l)) ==> says(buf@) is Point && is_point(l, says(buf@)->Point_0),
        r is Err ==> says(buf@) is Bad,
@at before /if tokens\.is_empty\(\)/
    let ghost t = tokens_of(buf@);
    proof { assert(texts(tokens@) =~= t); assert(t.len() == tokens@.len()); assert(forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == tokens@[i]@); }
@loop 0
    invariant 3 <= i <= tokens@.len(), t.len() == tokens@.len(), forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] == tokens@[k]@, t == tokens_of(buf@),
        all_ok(t, i as int), tags_(tags@) =~= all_tags(t, i as int)
    decreases tokens@.len() - i
@loop 1
    invariant 3 < i <= tokens@.len(), t.len() == tokens@.len(), t == tokens_of(buf@), 4 <= t.len(), token@ == t[i - 1], texts(raws@) == parts_of(t[i - 1], 44), j <= raws@.len(),
        raw_ok(parts_of(t[i - 1], 44), j as int), tags_(tags@) =~= all_tags(t, i - 1) + raw_tags(parts_of(t[i - 1], 44), j as int)
    decreases raws@.len() - j
@at before /let tag = split_unescaped/
    let ghost g0 = tags@;
    proof { assert(texts(raws@)[j - 1] == raws@[j - 1]@); }
@at after /let tag = split_unescaped\(tag_raw, 61\);/
    proof {
        let g = parts_of(t[i - 1], 44); assert(g[j - 1] == tag_raw@); assert(texts(tag@) == parts_of(g[j - 1], 61));
        assert(texts(tag@).len() == tag@.len()); assert(forall|k: int| 0 <= k < tag@.len() ==> #[trigger] texts(tag@)[k] == tag@[k]@);
        if !tag_ok(parts_of(g[j - 1], 61)) { assert(!raw_ok(g, g.len() as int)) by { assert(0 <= j - 1 < g.len()); } assert(!all_ok(t, t.len() as int)); }
    }
@at after /tags\.push\(\(tag\[0\], tag\[1\]\)\);/
    proof { assert(tags_(tags@) =~= tags_(g0).push((tag@[0]@, tag@[1]@))); }
@end
// ---- a body: a point for each of its lines, or refused ----
spec fn body_ok(l: Seq<B>, k: int) -> bool { forall|i: int| 0 <= i < k ==> !(says(#[trigger] l[i]) is Bad) }
spec fn body(l: Seq<B>, k: int) -> Seq<P> decreases k { if k <= 0 { Seq::empty() } else { match says(l[k - 1]) { Said::Point(p) => body(l, k - 1).push(tidy_p(p)), _ => body(l, k - 1) } } }
//@extract common/protocol_parser/src/open_tsdb/parser.rs Parser::parse
@header impl Parser
@subst /lines: &'a str\)/ => lines: &'a [u8])
@subst /for line_raw in lines\.split\('\\n'\) \{/ => let raws = split_plain(lines, 10); let mut i = 0usize; while i < raws.len() { let line_raw = raws[i]; i = i + 1;
@subst /ret: Vec<Line>/ => ret: Vec<Line<'a>>
@ret r
@spec
    ensures
        r matches Ok(v) ==> body_ok(pieces(lines@, 10), pieces(lines@, 10).len() as int) && are_points(v@, body(pieces(lines@, 10), pieces(lines@, 10).len() as int)),
        r is Err ==> !body_ok(pieces(lines@, 10), pieces(lines@, 10).len() as int),
@loop 0
    invariant i <= raws@.len(), texts(raws@) == pieces(lines@, 10), body_ok(pieces(lines@, 10), i as int), are_points(ret@, body(pieces(lines@, 10), i as int))
    decreases raws@.len() - i
@at loop-start 0
    proof { assert(texts(raws@)[i as int] == raws@[i as int]@); }
@end
// ---- a stream: a point for each of its complete lines, up to the first that is not a put ----
spec fn tcp_tag_ok(t: B) -> bool { tag_ok(pieces(t, 61)) }
spec fn tcp_ok(t: Seq<B>, k: int) -> bool { forall|i: int| 4 <= i < k ==> #[trigger] tcp_tag_ok(t[i]) }
spec fn tcp_tags(t: Seq<B>, k: int) -> Seq<(B, B)> decreases k { if k <= 4 { Seq::empty() } else { tcp_tags(t, k - 1).push((pieces(t[k - 1], 61)[0], pieces(t[k - 1], 61)[1])) } }
spec fn puts(s: B) -> Said {
    let t = words(s);
    if t.len() == 0 { Said::Nothing } else if t[0] != put_() || t.len() < 4 || int_text(t[2]) is None || float_text(t[3]) is None || !tcp_ok(t, t.len() as int) { Said::Bad }
    else { Said::Point(P { table: t[1], ts: int_text(t[2])->0, value: float_text(t[3])->0, tags: tcp_tags(t, t.len() as int) }) }
}
//@extract common/protocol_parser/src/open_tsdb/parser.rs Parser::next_tcp_line
@header impl Parser
@subst /buf: &'a str\)/ => buf: &'a [u8])
@subst /buf\.split_whitespace\(\)\.collect::<Vec<&str>>\(\)/ => split_words(buf)
@subst /cmd != "put"/ => !text_is(cmd, put_word())
@subst /Err\((?:Error::)?Common \{[\s\S]*?\n\s*\}\)/ => Err(Error {})
@subst /Cow::Borrowed\(tokens\[1\]\)/ => tokens[1]
@subst /tokens\[2\]\.parse::<i64>\(\)\.map_err\([\s\S]*?\}\)\?/ => parse_i64(tokens[2])?
@subst /tokens\[3\]\.parse::<f64>\(\)/ => parse_f64(tokens[3])
@subst /let mut tags = / => let mut tags: Vec<(&[u8], &[u8])> = 
@subst /for token in tokens\.iter\(\)\.skip\(4\) \{/ => let mut i = 4usize; while i < tokens.len() { let token = tokens[i]; i = i + 1;
@subst /token\.split\('='\)\.collect::<Vec<&str>>\(\)/ => split_plain(token, 61)
@subst /\(Cow::Borrowed\(tag\[0\]\), Cow::Borrowed\(tag\[1\]\)\)/ => (tag[0], tag[1])
@subst /Cow::Borrowed\(OPEN_TSDB_DEFAULT_FIELD\)/ => value_name()
@subst /tag\[(\d)\]\.is_empty\(\)/ => (tag[\1].len() == 0)
@ret r
@spec
    ensures
        r matches Ok(None) ==> puts(buf@) is Nothing,
        r matches Ok(Some(l)) ==> puts(buf@) is Point && is_point(l, puts(buf@)->Point_0),
        r is Err ==> puts(buf@) is Bad,
@at before /if tokens\.is_empty\(\)/
    let ghost t = words(buf@);
    proof { assert(texts(tokens@) =~= t); assert(t.len() == tokens@.len()); assert(forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == tokens@[i]@); }
@loop 0
    invariant 4 <= i <= tokens@.len(), t.len() == tokens@.len(), forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] == tokens@[k]@, t == words(buf@),
        tcp_ok(t, i as int), tags_(tags@) =~= tcp_tags(t, i as int)
    decreases tokens@.len() - i
@at before /let tag = split_plain/
    let ghost g0 = tags@;
@at after /let tag = split_plain\(token, 61\);/
    proof {
        assert(token@ == t[i - 1]); assert(texts(tag@) == pieces(t[i - 1], 61)); assert(texts(tag@).len() == tag@.len());
        assert(forall|k: int| 0 <= k < tag@.len() ==> #[trigger] texts(tag@)[k] == tag@[k]@); assert(tag_ok(texts(tag@)) == tcp_tag_ok(t[i - 1]));
    }
@at after /tags\.push\(\(tag\[0\], tag\[1\]\)\);/
    proof { assert(tags_(tags@) =~= tags_(g0).push((tag@[0]@, tag@[1]@))); }
@end
// the points of the complete lines at the start of a buffer, how many bytes they take, and whether the next complete line is not a put
ghost struct Eaten { points: Seq<P>, len: int, bad: bool }
spec fn read(s: B) -> Said { if utf8_text(s) { puts(s) } else { Said::Bad } }
spec fn eat(s: B) -> Eaten decreases s.len() {
    let n = first(s, 10);
    if n < 0 || n >= s.len() { Eaten { points: Seq::empty(), len: 0, bad: false } } else {
        let rest = eat(s.skip(n + 1));
        match read(s.subrange(0, n)) {
            Said::Bad => Eaten { points: Seq::empty(), len: 0, bad: true },
            Said::Nothing => Eaten { points: rest.points, len: n + 1 + rest.len, bad: rest.bad },
            Said::Point(p) => Eaten { points: seq![tidy_p(p)] + rest.points, len: n + 1 + rest.len, bad: rest.bad },
        }
    }
}
//@extract common/protocol_parser/src/open_tsdb/parser.rs Parser::parse_tcp_opentsdb
@header impl Parser
@subst /while let Some\(len\) = buf\[pos\.\.\]\.iter\(\)\.position\(\|b\| \*b == b'\\n'\) \{/ => loop { let len = match find_line(buf, pos) { Some(n) => n, None => break };
@subst /std::str::from_utf8\(&buf\[pos\.\.pos \+ len\]\)[\s\S]*?\.and_then\(\|line_raw\| self\.next_tcp_line\(line_raw\)\);/ => match utf8(sub(buf, pos, pos + len)) { Ok(line_raw) => self.next_tcp_line(line_raw), Err(e) => Err(e) };
@subst /ret: Vec<Line>/ => ret: Vec<Line<'a>>
@ret r
@spec
    requires buf@.len() < 0x7fff_ffff_ffff_ffff
    ensures
        r matches Ok(v) ==> are_points(v.0@, eat(buf@).points) && v.1 == eat(buf@).len && v.1 <= buf@.len(),
        r matches Ok(v) ==> v.1 == 0 ==> !eat(buf@).bad,
        r is Err ==> eat(buf@).bad && eat(buf@).len == 0,
@loop 0
    invariant pos <= buf@.len() < 0x7fff_ffff_ffff_ffff, goes_on(buf@, pos as int, ret@, eat(buf@))
    ensures pos <= buf@.len(), are_points(ret@, eat(buf@).points), pos == eat(buf@).len, pos == 0 ==> !eat(buf@).bad
    decreases buf@.len() - pos
@at before-loop 0
    proof { assert(buf@.skip(0) =~= buf@); }
@at loop-start 0
    let ghost s = buf@.skip(pos as int); let ghost r0 = ret@; let ghost pos0 = pos as int;
    proof { lemma_first(s, 10); }
@at before /match line \{/
    proof { let n = len as int; assert(n == first(s, 10)); assert(s.subrange(0, n) =~= buf@.subrange(pos as int, pos + n)); assert(s.skip(n + 1) =~= buf@.skip(pos + n + 1)); }
@at before /pos \+= len \+ 1;/
    proof {
        let n = len as int; let p = read(s.subrange(0, n));
        let e = eat(buf@); let a = eat(s); let b = eat(s.skip(n + 1));
        match p {
            Said::Point(q) => {
                assert(ret@.len() == r0.len() + 1 && a.points =~= seq![tidy_p(q)] + b.points); assert(e.points[r0.len() as int + 0] == a.points[0]);
                assert forall|i: int| 0 <= i < ret@.len() implies is_point(#[trigger] ret@[i], e.points[i]) by { if i < r0.len() { assert(ret@[i] == r0[i]); } }
                assert forall|i: int| 0 <= i < b.points.len() implies #[trigger] e.points[ret@.len() as int + i] == b.points[i] by { assert(e.points[r0.len() as int + (i + 1)] == a.points[i + 1]); }
            },
            _ => { assert(ret@ == r0); },
        }
    }
@end
spec fn goes_on(s: B, pos: int, v: Seq<Line>, e: Eaten) -> bool {
    let rest = eat(s.skip(pos));
    &&& v.len() + rest.points.len() == e.points.len()
    &&& forall|i: int| 0 <= i < v.len() ==> is_point(#[trigger] v[i], e.points[i])
    &&& forall|i: int| 0 <= i < rest.points.len() ==> #[trigger] e.points[v.len() as int + i] == rest.points[i]
    &&& pos + rest.len == e.len && rest.bad == e.bad
}
// however a stream is cut into reads, its points are those of its whole
proof fn lemma_first_cat(a: B, b: B, c: u8) requires first(a, c) >= 0 ensures first(a + b, c) == first(a, c) decreases a.len() {
    assert((a + b)[0] == a[0]);
    if a[0] != c { assert((a + b).skip(1) =~= a.skip(1) + b); lemma_first_cat(a.skip(1), b, c); }
}
proof fn a_cut_changes_nothing(a: B, b: B)
    requires !eat(a).bad
    ensures 0 <= eat(a).len <= a.len(), eat(a + b).points =~= eat(a).points + eat(a.skip(eat(a).len) + b).points, eat(a + b).len == eat(a).len + eat(a.skip(eat(a).len) + b).len, eat(a + b).bad == eat(a.skip(eat(a).len) + b).bad
    decreases a.len()
{
    let n = first(a, 10); lemma_first(a, 10);
    if n < 0 { assert(a.skip(0) =~= a); } else {
        lemma_first_cat(a, b, 10); let r = a.skip(n + 1);
        assert((a + b).subrange(0, n) =~= a.subrange(0, n)); assert((a + b).skip(n + 1) =~= r + b);
        a_cut_changes_nothing(r, b);
        assert(a.skip(n + 1 + eat(r).len) =~= r.skip(eat(r).len));
    }
}
// ---- the time of a put, in milliseconds ----
const MILLISECOND_TIMESTAMP: i64 = 1_000_000_000_000;
spec fn tens(t: int, k: nat) -> int decreases k { if k == 0 { t } else { tens(t, (k - 1) as nat) * 10 } }
spec fn tenths(t: int, k: nat) -> int decreases k { if k == 0 { t } else { tenths(t, (k - 1) as nat) / 10 } }
#[verifier::external_body] fn div(a: i64, b: i64) -> (r: i64) requires b > 0, a >= 0 ensures r == a as int / b as int { a / b }
//@extract main/src/tcp/tcp_service.rs fn millisecond_timestamp
@subst /timestamp \/ MILLISECOND_TIMESTAMP/ => div(timestamp, MILLISECOND_TIMESTAMP)
@subst /timestamp \/= 10;/ => timestamp = div(timestamp, 10);
@subst /mut timestamp: i64\) -> i64 \{/ => time0: i64) -> i64 { let mut timestamp = time0;
@ret r
@spec
    requires 0 <= time0
    ensures time0 == 0 ==> r == 0, time0 > 0 ==> 1_000_000_000_000 <= r < 11_000_000_000_000,
        1_000_000_000_000 <= time0 < 11_000_000_000_000 ==> r == time0,
        exists|k: nat| r == tens(time0 as int, k) || r == tenths(time0 as int, k),
@loop 0
    invariant 0 <= timestamp <= time0, exists|k: nat| timestamp == tenths(time0 as int, k), time0 < 11_000_000_000_000 ==> timestamp == time0, time0 >= 11_000_000_000_000 ==> timestamp >= 1_000_000_000_000
    ensures 0 <= timestamp < 11_000_000_000_000, exists|k: nat| timestamp == tenths(time0 as int, k), time0 < 11_000_000_000_000 ==> timestamp == time0, time0 >= 11_000_000_000_000 ==> timestamp >= 1_000_000_000_000
    decreases timestamp
@at before-loop 0
    proof { assert(timestamp == tenths(time0 as int, 0)); assert(timestamp == tens(time0 as int, 0)); }
@at loop-start 0
    let ghost k0 = choose|k: nat| timestamp == tenths(time0 as int, k);
@at loop-end 0
    proof { assert(timestamp == tenths(time0 as int, (k0 + 1) as nat)); }
@loop 1
    invariant 0 <= timestamp < 11_000_000_000_000, time0 == 0 ==> timestamp == 0, time0 > 0 ==> timestamp > 0, 1_000_000_000_000 <= time0 < 11_000_000_000_000 ==> timestamp == time0,
        exists|k: nat| timestamp == tens(time0 as int, k) || timestamp == tenths(time0 as int, k), timestamp < 1_000_000_000_000 ==> exists|k: nat| timestamp == tens(time0 as int, k)
    decreases 11_000_000_000_000 - timestamp
@at loop-start 1
    let ghost k1 = choose|k: nat| timestamp == tens(time0 as int, k);
@at loop-end 1
    proof { assert(timestamp == tens(time0 as int, (k1 + 1) as nat)); }
@end
}
fn main() {}
