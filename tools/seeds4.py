import sys
sys.argv, args = [sys.argv[0], '-'], sys.argv[1:]
sys.path.insert(0, '/verif/tools')
exec(open('/verif/tools/seeds2.py').read().split("T='tskv")[0])
only = args
I='tskv/src/reader/'
READ='''
fn newest(v: Vec<Src>, n: u32) { for size in 1..4usize { let pj = Projection { fields: (0..=n).collect(), fields_with_time: (0..=n).collect() }; let rd = SeriesGroupBatchReaderFactory::fresh().series(v.iter().map(reference).collect(), size, schema(n), &pj, &None).unwrap().unwrap(); let got = rows_of(&rd.batches().unwrap(), n).unwrap(); judge(&got, &want(&v, n), None).unwrap(); } }
fn s(level: u32, id: u64, rows: &[i64]) -> Src { Src { level, id, mem: false, cols: vec![1, 2], rows: rows.iter().map(|t| (*t, vec![Some(*t * 100 + id as i64), if id % 2 == 0 { None } else { Some(id as i64) }])).collect(), cuts: vec![] } }
'''
S('merge_batch_end','C31',[(I+'sort_merge.rs','''            } else {
                self.in_progress.take_last_and_merge()?;
            }

            return''','''            }
            self.in_progress.take_last_and_merge()?;

            return''')],
 'an output batch that becomes full just before the last of several rows of the same time','a row is returned twice, once with old values',
 head2('C31')+READ+'''
fn main() { newest(vec![s(0, 1, &[1, 2, 3, 4, 5, 6]), s(0, 2, &[2, 4, 5, 9]), s(0, 3, &[1, 4, 5, 6])], 2); newest(vec![s(0, 4, &[1, 2, 3]), s(0, 5, &[1, 2, 3])], 2); }
''')
S('chunk_group_max','C31',[(I+'utils.rs','global_min_ts = cmp::max(chunk.time_range().max_ts, global_min_ts);','global_min_ts = chunk.time_range().max_ts;')],
 'three files of a series: a long one, a short one inside its range, and one behind the short one that the long one still overlaps','rows come out of order and a time twice, with an old value',
 head2('C31')+READ+'''
fn main() { newest(vec![s(0, 1, &[1, 5, 9, 12]), s(0, 2, &[2, 3]), s(0, 3, &[7, 9, 10])], 2); newest(vec![s(0, 4, &[1, 20]), s(0, 5, &[2, 3]), s(0, 6, &[30])], 2); }
''')
S('chunk_age_order','C31',[(I+'iterator.rs','let mut grouped_chunks = group_overlapping_segments(&chunks);\n        grouped_chunks.iter_mut().for_each(|g| g.sort());','let grouped_chunks = group_overlapping_segments(&chunks);')],
 'overlapping files of which the newer begins earlier','the old value of a field is read',
 head2('C31')+READ+'''
fn main() { newest(vec![s(0, 1, &[5, 6, 9]), s(0, 3, &[2, 5, 9])], 2); newest(vec![s(1, 9, &[1, 5, 6]), s(0, 2, &[1, 5])], 2); }
''')
S('merge_empty_batch','C31',[(I+'partitioned_stream.rs','Some(Ok(b)) if b.num_rows() == 0 => continue,','Some(Ok(b)) if b.num_rows() == 0 => return Poll::Ready(None),')],
 'an empty batch in the middle of one of the streams that are merged','the rows behind the empty batch are lost',
 head2('C31')+READ+'''
fn main() {
    newest(vec![s(0, 1, &[5, 6, 9]), s(0, 3, &[2, 5, 9])], 2);
    let a = s(0, 1, &[1, 2]); let b = s(0, 2, &[3, 4]); let c = s(0, 3, &[2, 5]); let q = |v: Vec<RecordBatch>| Source { schema: schema(2), items: v.into_iter().map(Poll::Ready).collect(), over: false }; let k = [1u32, 2];
    let got = merged(vec![q(vec![batch(&k, &a.rows), batch(&k, &[]), batch(&k, &b.rows)]), q(vec![batch(&k, &c.rows)])], schema(2), 2).unwrap(); judge(&rows_of(&got, 2).unwrap(), &want(&[a, b, c], 2), None).unwrap();
}
''')
