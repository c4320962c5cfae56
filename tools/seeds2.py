import sys; sys.path.insert(0, '/verif/tools')
from seed import seed
import re, os
U='/verif/units/'
def inc(path):
    s=open(path).read(); d=os.path.dirname(path)
    return re.sub(r'^//@include (\S+)$', lambda m: inc(os.path.join(d,m.group(1))), s, flags=re.M)
def head2(u):   # the extraction part of a replay template, reused for the demonstration
    s=inc(f'{U}{u}/replay.rs'); s=s.replace('//@prelude',open('/verif/lib/prelude.rs').read())
    return s[:s.index('fn main() {')]
only=sys.argv[1:]
def S(id,*a,**k):
    if not only or id in only: seed(id,*a,**k)
T='tskv/src/tsm/codec/'
S('simple8b_run','C01',[(T+'simple8b.rs','if dst.len() < j + 240 {','if dst.len() < j + 120 {')],
 'a run of at least 240 ones in the differences behind other values, where the decoder has no room left','decoding the block panics',
 head2('C01')+'''
fn main() {
    for pre in [0usize, 1, 7, 60, 100, 150] { for run in [119usize, 120, 239, 240, 241, 480, 700] {
        let mut w: Vec<u64> = (0..pre as u64).map(|i| i * 1_000_003).collect(); w.extend(std::iter::repeat(1).take(run)); w.push(77);
        let (mut b, mut o) = (vec![], vec![]);
        simple8b::encode(&w, &mut b).unwrap(); simple8b::decode(&b, &mut o);
        assert!(o == w, "{pre} values then a run of {run}: {} of {} values", o.len(), w.len());
    } }
}
''')
S('ts_delta_limit','C02',[(T+'timestamp.rs','if max > simple8b::MAX_VALUE {','if max >> 60 > 1 {')],
 'timestamps so far apart that a difference needs 61 bits','such a block is not stored uncompressed but fails to encode: the data cannot be flushed',
 head2('C02')+'''
fn main() {
    for g in [1i64 << 58, (1 << 60) - 1, 1 << 60, (1 << 60) + 5, (1 << 61) - 1, 1 << 61] {
        let s = vec![-(1i64 << 61), -(1i64 << 61) + 3, -(1i64 << 61) + 3 + g, -(1i64 << 61) + 9 + g];
        let v: Vec<u64> = s.iter().map(|x| *x as u64).collect(); let bits = vec![true; 4]; let nb = NullBuffer { bits: bits.clone() };
        let mut b = vec![]; let e = timestamp::ts_zigzag_simple8b_encode(&s, &mut b);
        cmp(e, &mut || timestamp::ts_zigzag_simple8b_decode_to_array(&b, &nb), Int64, &bits, &v).unwrap();
    }
}
''')
S('bool_header_room','C03',[(T+'boolean.rs','let size = HEADER_LEN + 8 + ((src.len()','let size = HEADER_LEN + 2 + ((src.len()')],
 'a block of 16384 or more booleans (the count takes three bytes)','encoding panics',
 head2('C03')+'''
fn main() {
    for n in [0usize, 1, 8, 127, 128, 1000, 16_383, 16_384, 16_385, 16_390, 40_000] {
        let v: Vec<bool> = (0..n).map(|i| i % 3 == 0 || i % 7 == 2).collect(); let w: Vec<u64> = v.iter().map(|b| *b as u64).collect();
        let bits = vec![true; n]; let nb = NullBuffer { bits: bits.clone() };
        let mut b = vec![]; let e = boolean::bool_bitpack_encode(&v, &mut b);
        cmp(e, &mut || boolean::bool_bitpack_decode(&b, &nb), Boolean, &bits, &w).unwrap();
    }
}
''')
S('snappy_room','C05',[(T+'string.rs','src.len() * super::MAX_VAR_INT_32','src.len() * 2')],
 'several strings of 16384 bytes or more in one block','encoding panics or fails: the block cannot be written',
 head2('C05')+'''
fn main() {
    for (n, l) in [(0usize, 0usize), (1, 0), (5, 127), (5, 128), (3, 16_383), (1, 16_384), (3, 16_384), (6, 20_000), (40, 16_390)] {
        let s: Vec<String> = (0..n).map(|i| char::from(b'a' + i as u8 % 26).to_string().repeat(l)).collect();
        let src: Vec<&[u8]> = s.iter().map(|x| x.as_bytes()).collect();
        let keys: Vec<u64> = src.iter().map(|x| arr::text_key(x)).collect();
        let bits = vec![true; n]; let nb = NullBuffer { bits: bits.clone() };
        let mut b = vec![]; let e = string::str_snappy_encode(&src, &mut b);
        cmp(e, &mut || string::str_snappy_decode_to_array(&b, &nb), Utf8, &bits, &keys).unwrap();
    }
}
''')
D='common/models/src/predicate/domain.rs'
S('join_ranges','C06',[(D,'new_range.1 = new_range.1.max(self.inner[&timestamps[0]]);','new_range.1 = new_range.1.max(self.inner[&new_range.0]);')],
 'a range added that joins two or more ranges of the set and ends inside the last of them','the end of the last range is lost (or the lookup panics)',
 head2('C06')+'''
fn main() {
    for (adds, q) in [(vec![(0i64, 5i64), (10, 20)], (4i64, 12i64)), (vec![(0, 1), (3, 4), (6, 9)], (2, 7)), (vec![(5, 9)], (0, 6)), (vec![(0, 5), (10, 20)], (6, 9))] {
        let mut s = TimeRanges::new(adds.iter().map(|r| TimeRange::new(r.0, r.1)).collect()); s.push(TimeRange::new(q.0, q.1));
        for t in -2..25 { assert_eq!(s.contains(t), has(&adds, t) || has(&[q], t), "{adds:?} plus {q:?} at {t}"); }
    }
}
''','base')
S('union_one_sided','C07',[(D,'.map(|v1| v1.union(v2).unwrap_or(Domain::All));','.map(|v1| v1.union(v2).unwrap_or_else(|_| v2.clone()));')],
 'a union of a list of values with a range of the same column','the values of the first side are lost: rows matching only them are pruned',
 head2('C07')+'''
fn main() {
    let a = ColumnDomains::of(0u8, &build(&Spec::R(vec![(6, 2, 4)]))); let _ = &a;
    let rows: Vec<[i64; 4]> = (0..11).map(|i| [i, i, i, i]).collect();
    for k in [0u8, 1, 2] { for s in [Spec::R(vec![(6, 2, 4)]), Spec::E(true, vec![4]), Spec::All, Spec::E(false, vec![2])] { for t in [Spec::R(vec![(5, 4, 8)]), Spec::E(true, vec![8]), Spec::All] {
        let mut u = ColumnDomains::of(k, &build(&s)); u.column_wise_union(&ColumnDomains::of(k, &build(&t)));
        for r in &rows { if want(&s, r[k as usize]) || want(&t, r[k as usize]) { assert!(chas(&u, r), "{s:?} or {t:?}: row {r:?} is lost"); } }
    } } }
}
''')
S('value_minus','C07',[(D,'''            (false, true) => {
                result_white_list = true;
                result_entries = other_entries
                    .difference(first_entries)''','''            (false, true) => {
                result_white_list = true;
                result_entries = other_entries
                    .symmetric_difference(first_entries)''')],
 'a NOT IN list with a value that the IN list it is intersected with does not name','the excluded value gets selected',
 head2('C07')+'''
fn main() {
    let sets: Vec<Vec<i64>> = vec![vec![], vec![2], vec![2, 4], vec![4], vec![2, 4, 6], vec![6, 8]];
    for a in &sets { for b in &sets { for (w1, w2) in [(true, true), (true, false), (false, true), (false, false)] {
        let (x, y) = (Spec::E(w1, a.clone()), Spec::E(w2, b.clone()));
        let d = build(&x).intersect(&build(&y)); let d = match d { Ok(d) => d, Err(_) => panic!() };
        for v in 0..11 { assert_eq!(has(&d, v), want(&x, v) && want(&y, v), "{x:?} and {y:?} at {v}"); }
    } } }
}
''')
S('tombstone_old_writer','C08',[('tskv/src/tsm/tombstone.rs','''        // Drop the old Writer, reopen in other time.
        *writer_lock = None;

        let tmp_path''','''        let tmp_path''')],
 'a DELETE between opening a tombstone file and compacting it, and another DELETE after the compacted file took its place','the later DELETE is written to the file that was replaced and is gone after a restart',
 head2('C08')+'''
fn main() {
    use Op::*; let k = KS.to_vec();
    let h: Vec<Vec<Op>> = vec![vec![Del(k.clone(), 0, 2, None)], vec![Del(k.clone(), 0, 2, None), Tmp(4, 5), Swap, Reopen], vec![Tmp(4, 5), Swap, Del(k.clone(), 0, 1, None), Reopen],
        vec![Del(k.clone(), 0, 2, None), Tmp(4, 5), Swap, Del(k.clone(), 7, 8, None), Reopen], vec![Del(vec![KS[1]], 0, 2, None), Swap, Del(vec![KS[2]], 7, 8, None), Reopen]];
    for o in &h { run(o).unwrap(); }
}
''')
M='common/models/src/meta_data.rs'
S('bucket_before_1970','C11',[(M,'let floor = (ts + 1) / duration;','let floor = ts / duration;')],
 'a timestamp before 1970 exactly on the edge of a bucket','the bucket computed for it does not contain it: the row cannot be stored',
 head2('C11')+'''
fn main() {
    for d in [1i64, 7, 100, 86_400_000, 31_536_000_000_000_000] { for k in -5i64..6 { for o in [-1i64, 0, 1] {
        let t = k * d + o; let (a, b) = get_time_range(t, d);
        assert!(a <= t && t < b && b - a == d && a % d == 0, "{t} with period {d}: {a}..{b}");
    } } }
}
''','base')
S('replica_clamp','C12',[(M,'} else if replica > node_count {','} else if replica > shards.max(node_count) {')],
 'more replicas asked for than there are nodes, and more shards than nodes','two vnodes of a replication set land on the same node',
 head2('C12')+'''
fn main() {
    for n in 1..6usize { for shards in 1..8u32 { for replica in 0..8u32 {
        let nodes: Vec<NodeInfo> = (0..n).map(|i| NodeInfo { id: 1 + i as u64, grpc_addr: String::new() }).collect();
        let (sets, _) = allocation_replication_set(nodes, shards, replica, 1);
        for s in &sets { for (i, v) in s.vnodes.iter().enumerate() { for w in &s.vnodes[..i] { assert!(v.node_id != w.node_id, "{n} nodes, {shards} shards, {replica} replicas: {v:?} beside {w:?}"); } } }
    } } }
}
''')
S('bucket_id_reuse','C12',[('meta/src/store/storage.rs','self.fetch_and_add_incr_id(cluster, used)?;','debug_assert!(used > 0);\n        self.fetch_and_add_incr_id(\n            cluster,\n            (db_schema.options.shard_num() * db_schema.options.replica()) as u32,\n        )?;')],
 'a bucket with enough shards that its ids no longer fit what is reserved for it','ids of one bucket are given out again to the next',
 head2('C12')+'''
fn main() {
    for (shards, replica) in [(1u64, 1u64), (1, 3), (2, 2), (4, 1), (8, 3), (16, 2)] {
        let sm = StateMachine { next: Cell::new(1), nodes: RefCell::new((0..3).map(|i| NodeInfo { id: 7 * i + 3, grpc_addr: String::new() }).collect()), dbs: RefCell::new(BTreeMap::new()), buckets: RefCell::new(vec![]) };
        sm.dbs.borrow_mut().insert("db".into(), DatabaseSchema { options: DatabaseOptions { shard_num: shards, replica, dur: CnosDuration(100) }, config: DatabaseConfig { p: Precision::NS }, keep: i64::MIN });
        let mut ids = HashSet::new();
        for t in [0i64, 100, 250, -40] {
            assert!(sm.process_create_bucket("c", "t", "db", &t).is_ok());
            let b = sm.buckets.borrow().last().unwrap().1.clone();
            for id in b.shard_group.iter().flat_map(|s| s.vnodes.iter().map(|v| v.id).chain([s.id])).chain([b.id]) { assert!(ids.insert(id), "id {id} given out twice ({shards} shards, {replica} replicas)"); }
        }
    }
}
''')
S('unite_sign','C13',[('common/models/src/utils.rs','let low = (incr_id & LOW_32BIT_MASK as u32) as u64;','let low = incr_id as i32 as i64 as u64;')],
 'an id of 2^31 or more in the low half','the high half comes out all ones: ids of different owners collide',
 head2('C13')+'''
fn main() {
    for a in [0u32, 1, 7, 1 << 31, u32::MAX, 123_456] { for b in [0u32, 1, 99, (1 << 31) - 1, 1 << 31, 3_000_000_000, u32::MAX] {
        let u = unite_id(a, b); assert_eq!(u, (a as u64) << 32 | b as u64); assert_eq!(split_id(u), (a, b), "{a:#x} {b:#x}");
    } }
}
''')
S('grant_down','C20',[('common/models/src/auth/role.rs','''            if p == privilege {
                Ok(self.additional''','''            if p == privilege || (*privilege == DatabasePrivilege::Read && self.system_role.is_none()) {
                Ok(self.additional''')],
 'a role without a system role that holds a higher privilege than the one revoked','revoking READ removes a WRITE or ALL grant',
 head2('C20')+'''
fn main() {
    for s in [None, Some(SystemTenantRole::Member)] { for have in [D::Read, D::Write, D::Full] { for take in [D::Read, D::Write, D::Full] {
        let mut c: CustomTenantRole<Oid> = CustomTenantRole { id: 7, name: "r".into(), system_role: s.clone(), additional_privileges: Default::default() };
        assert!(c.grant_privilege("a".into(), have.clone()).is_ok());
        let r = c.revoke_privilege("a", &take);
        assert_eq!((r.is_ok(), c.additional_privileges.len()), (have == take, (have != take) as usize), "{have:?} minus {take:?}");
    } } }
}
''')
S('db_all_narrow','C20',[('common/models/src/auth/privilege.rs','''            (Self::Database(s, Some(s_t)), Self::Database(o, Some(o_t))) => {
                s_t == o_t && s.check_privilege(o)''','''            (Self::Database(s, Some(s_t)), Self::Database(o, o_t)) => {
                o_t.as_ref().map_or(true, |o_t| s_t == o_t) && s.check_privilege(o)''')],
 'a request for all databases of a tenant by a holder of a single database','a privilege on one database covers all of them',
 head2('C20')+'''
fn main() {
    let qs = all();
    for a in &qs { for b in &qs { assert_eq!(a.check_privilege(b), rights(b).is_subset(&rights(a)), "{a:?} asked for {b:?}"); } }
}
''')

R='tskv/src/record_file/reader.rs'
S('record_resync','C25',[(R,'self.set_pos(self.pos + 1).await?;','self.set_pos(self.pos + RECORD_MAGIC_NUMBER_LEN).await?;')],
 'a torn record whose length is no multiple of four, with records written behind it after the restart','the records behind the torn one are skipped',
 head2('C25')+'''
fn main() {
    for n in [0usize, 3, 5, 30] { for cut in 0..32usize {
        reset(); let p = PathBuf::from("f"); let mut m = Model::default(); let mut w = open(&p, &mut m, 1 << 20).unwrap();
        let d = vec![7u8; n]; let _ = w.write_record(1, 2, [&d]).unwrap(); w.close().unwrap();
        let mut b = get(&p); let at = b.len().saturating_sub(cut).max(4); b.truncate(at); put(&p, b);
        let mut w = open(&p, &mut Model { len: at, ..Default::default() }, 0).unwrap();
        for i in 0..2u8 { let d = vec![i; 9]; let _ = w.write_record(3, 4, [&d]).unwrap(); } w.close().unwrap();
        let mut rd = Reader::open(&p).unwrap(); let got = read_all(&mut rd).unwrap();
        assert!(got.iter().filter(|r| r.data.len() == 9).count() == 2, "a record of {n} bytes cut by {cut}: {} records behind it are left", got.len());
    } }
}
''')
S('record_truncate_buffered','C25',[('tskv/src/file_system/file/stream_writer.rs','''    pub async fn truncate(&mut self, size: usize) -> Result<()> {
        self.flush().await?;''','''    pub async fn truncate(&mut self, size: usize) -> Result<()> {
        self.try_flush().await?;''')],
 'truncating while written records are still buffered','the truncated records reappear behind the cut and shift what is written later',
 head2('C25')+'''
fn main() {
    for buf in [0usize, 50, 1 << 20] { for keep in 0..3usize {
        reset(); let p = PathBuf::from("f"); let mut m = Model::default(); let mut w = open(&p, &mut m, buf).unwrap();
        let mut ends = vec![w.file_size()];
        for i in 0..3u8 { let d = vec![i; 20]; w.write_record(1, 2, [&d]).unwrap(); ends.push(w.file_size()); }
        w.truncate(ends[keep] as u64).unwrap(); let d = b"behind".to_vec(); w.write_record(1, 2, [&d]).unwrap(); w.sync().unwrap();
        let mut rd = Reader::open(&p).unwrap(); let got = read_all(&mut rd).unwrap();
        assert!(got.len() == keep + 1 && got[keep].data == d, "{keep} of 3 records kept: {} records", got.len());
    } }
}
''')
C='tskv/src/compaction/comapcting_block_meta_group.rs'
S('compact_order','C27',[(C,'self.blk_metas.sort_by_key(|a| a.reader_idx());','self.blk_metas.sort_by_key(|a| (a.compacting_file_index() != 0, a.reader_idx()));')],
 'more than two files whose blocks overlap, one of them exhausted early','an older value wins over a newer one',
 head2('C27')+'''
fn main() {
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
    let mut r = vx::Rng(99);
    for i in 0..4000 { let c = gen(&mut r, (i % 3) as u8); if let Err(e) = run(&c) { eprintln!("{c:?}: {e}"); std::process::exit(101); } }
}
''')
S('compact_group_range','C27',[(C,'        self.time_range.merge(&other.time_range);\n','        if !self.overlaps(other) {\n            self.time_range.merge(&other.time_range);\n        }\n')],
 'three blocks of which the first and the last only overlap the one between them','rows of overlapping blocks are not merged: a time appears twice or in the wrong order',
 head2('C27')+'''
fn main() {
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
    let mut r = vx::Rng(5);
    for i in 0..4000 { let c = gen(&mut r, (i % 3) as u8); if let Err(e) = run(&c) { eprintln!("{c:?}: {e}"); std::process::exit(101); } }
}
''')
S('summary_file_id','C30',[('tskv/src/tsfamily/summary.rs','''            max_file_id = max(max_file_id, e.file_id);
            for m in e.del_files {
                files.remove(&m.file_id);
            }
            for m in e.add_files {
''','''            for m in e.del_files {
                files.remove(&m.file_id);
            }
            for m in e.add_files {
                max_file_id = max(max_file_id, m.file_id);
''')],
 'a restart after the ids given out last went to files that were never added or whose edit only announced the id','the id of a file that may still be on disk is given out again',
 head2('C30')+'''
fn main() {
    for i in 0..1200u64 { for faults in [false, true] { if let Err(e) = scenario(i * 7919 + 1, 3 + (i % 20) as usize, faults) { eprintln!("seed {i}: {e}"); std::process::exit(101); } } }
}
''')
S('version_seq','C30',[('tskv/src/tsfamily/version.rs','last_seq: max(self.last_seq, ve.seq_no),','last_seq: if added_files.iter().all(|f| f.is_empty()) { self.last_seq } else { ve.seq_no },')],
 'an edit that adds files with a position behind the current one (a compaction)','the flushed position falls back, so a rewritten summary replays log entries that are already in files',
 head2('C30')+'''
fn main() {
    for i in 0..600u64 { for faults in [false, true] { if let Err(e) = scenario(i * 7919 + 1, 3 + (i % 20) as usize, faults) { eprintln!("seed {i}: {e}"); std::process::exit(101); } } }
}
''')
T9='common/models/src/predicate/transformation.rs'
S('reverse_lteq','C29',[(T9,'Operator::GtEq => Operator::LtEq,\n            _ => op,','Operator::GtEq => Operator::Lt,\n            _ => op,')],
 'a literal on the left of >= and a row exactly at it','the row on the boundary is pruned (or kept by a DELETE)',
 head2('C29')+'''
fn main() {
    let mut r = Rng(3);
    for op in CMP { for n in ["a", "i", "f", "time"] { for _ in 0..200 { let v = lit_for(&mut r, n); let rs = rows(&mut r, 30);
        for e in [b(c(n), op, lit(v.clone())), b(lit(v.clone()), op, c(n))] { query(&e, &rs).unwrap(); if !fields(&e) { delete(&e, &rs).unwrap(); } } } } }
}
''')
S('codec_zlib','C28',[('tskv/src/tsm/codec/instance.rs','''        Encoding::Zlib => Box::new(ZlibStringCodec()),
        _ => Box::new(SnappyStringCodec()),''','''        _ if (algo as u8) > Encoding::Zlib as u8 => Box::new(ZlibStringCodec()),
        _ => Box::new(SnappyStringCodec()),''')],
 'a string column stored with ZLIB','its blocks cannot be read back',
 head2('C28')+'''
fn main() {
    use Encoding::*;
    for e in [Null, Gzip, Bzip, Zstd, Snappy, Zlib, Default] {
        let s: Vec<Vec<u8>> = vec![b"a".to_vec(), vec![], b"hello".to_vec()]; let v: Vec<&[u8]> = s.iter().map(|x| &x[..]).collect();
        let mut b = vec![]; inst::get_str_codec(e).encode(&v, &mut b).unwrap();
        assert!(e == Default || b[0] == e as u8, "{e:?} is written as {}", b[0]);
        let a = inst::get_str_codec(inst::get_encoding(&b)).decode_to_array(&b, &NullBuffer { bits: vec![true; 3] }).unwrap();
        let want: Vec<Option<Vec<u8>>> = s.iter().map(|x| Some(x.clone())).collect(); assert!(*a == want, "{e:?}: {a:?}");
    }
}
''')
