import sys
sys.argv, args = [sys.argv[0], '-'], sys.argv[1:]
sys.path.insert(0, '/verif/tools')
exec(open('/verif/tools/seeds2.py').read().split("T='tskv")[0])
only = args
W='tskv/src/wal/wal_store.rs'
RAFT='''
fn setup(file: u64, cache: usize) -> (Arc<WalOptions>, RaftEntryStorage) { recfile::reset(); CACHE.with(|c| c.set(cache)); let cfg = Arc::new(WalOptions { path: PathBuf::from("w"), wal_max_file_size: file, compress: codec::Encoding::Null, wal_sync: true }); let mut v = VnodeStorage { last: 0, got: vec![] }; let s = start(&cfg, None, &mut v).unwrap(); (cfg, s) }
fn e(i: u64) -> RaftEntry { RaftEntry { log_id: LogId { term: 1, index: i }, payload: EntryPayload::Normal(vec![i as u8, 5, 6, 7]) } }
fn is(s: &mut RaftEntryStorage, lo: u64, hi: u64) { for i in lo.saturating_sub(2)..hi + 3 { assert_eq!(s.entry(i).unwrap().map(|x| x.log_id.index), if i >= lo && i < hi { Some(i) } else { None }, "entry {i} of [{lo}, {hi})"); } let v: Vec<u64> = s.entries(lo.saturating_sub(1), hi + 1).unwrap().iter().map(|x| x.log_id.index).collect(); assert_eq!(v, (lo..hi).collect::<Vec<_>>()); assert_eq!(s.last_entry().unwrap().map(|x| x.log_id.index), if lo < hi { Some(hi - 1) } else { None }); }
'''
S('raft_purge_file_end','C10',[(W,'if item.max_seq < seq_no {','if item.max_seq <= seq_no {')],
 'a purge before exactly the last index of one of several wal files','the entry at that index is gone although it was to be kept',
 head2('C10')+RAFT+'''
fn main() { for file in [0u64, 60, 200, 500] { for at in 1..14u64 { let (_c, mut s) = setup(file, 3); for i in 1..14 { s.append(&[e(i)]).unwrap(); } s.del_before(at).unwrap(); is(&mut s, at, 14); } } }
''')
S('raft_replay_flushed','C10',[(W,'if entry.log_id.index > last_seq && entry.log_id.index <= apply_id.index {','if entry.log_id.index > last_seq && entry.log_id.index < apply_id.index {')],
 'a restart with an applied entry that had not been flushed','the newest applied entry is not applied again after the restart: an acknowledged write is lost',
 head2('C10')+RAFT+'''
fn main() { for (flushed, applied) in [(0u64, 1u64), (0, 9), (3, 8), (9, 9), (12, 13)] { let (c, mut s) = setup(200, 3); for i in 1..14 { s.append(&[e(i)]).unwrap(); } drop(s); let mut v = VnodeStorage { last: flushed, got: vec![] }; let mut s = start(&c, Some(applied), &mut v).unwrap(); is(&mut s, 1, applied + 1); assert_eq!(v.got.iter().map(|x| x.0).collect::<Vec<_>>(), (flushed + 1..applied + 1).collect::<Vec<_>>()); } }
''')
S('raft_stale_cache','C10',[(W,'self.entry_cache.del_after(seq_no);','if truncate.is_some() { self.entry_cache.del_after(seq_no); }')],
 'a truncation at exactly the first index of a wal file, with the truncated entries in the cache','truncated entries are still read',
 head2('C10')+RAFT+'''
fn main() { for file in [0u64, 60, 200, 500] { for at in 2..14u64 { let (_c, mut s) = setup(file, 256); for i in 1..14 { s.append(&[e(i)]).unwrap(); } s.del_after(at).unwrap(); is(&mut s, 1, at); } } }
''')
