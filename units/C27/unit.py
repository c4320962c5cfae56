INFO=dict(level='proof', assumptions=['every data file is well-formed: no time twice within a series, rows within the statistics of their column group, a cell only with its row, the range compacted is not empty',
    'reader/sort_merge.rs (merge_record_batches), filter_record_batch_by_time_range, decode_pages/decode_pages_buf, TsmReader::read_record_batch/read_datablock_raw and WriterWrapper are taken at contracts (cells in, cells out); filter is replayed, the writer is a list of blocks',
    'Arc, async/await, logs and metrics dropped: one compaction of the files at a time', 'TimeRanges at the contracts proved under C06'],
  trusted=['Verus 0.2026.09.13 and Z3', 'the extractor (lib/rx.py, lib/vx.py)', 'slice::sort/sort_by_key (stable, by the order given)', 'the outer loops of next_series_id and compact_files are not proved to terminate'])
def plan(c):
    c.verus('state.rs', min_verified=25)
    c.verus('groups.rs', min_verified=24)
    c.verus('next.rs', min_verified=11)
    c.verus('merge.rs', min_verified=33)
    c.verus('job.rs', min_verified=20)
    c.verus('run.rs', min_verified=17)
    c.replay('replay.rs')
