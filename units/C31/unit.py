INFO=dict(level='proof', assumptions=['each chunk and memcache is taken at its table: for every time at most one row, rows within the stated time range, the column groups of a chunk one after the other in time; no two of the same level with the same file id',
    'ColumnGroupReader, MemCacheReader, SchemaAlignmenter, SeriesReader (without its limit), CombinedBatchReader (one reader after the other) and DataFilter are taken at contracts over such tables',
    'datafusion: PruningPredicate drops only column groups no row of which passes; TreeNode::visit and rewrite reach every node; a PhysicalExpr reads its columns by position; interleave and batches at contracts (arrow)',
    'aggregates pushed down to statistics are left out (documented as imprecise); Arc, metrics and logs dropped; a poll of one stream at a time'],
  trusted=['Verus 0.2026.09.13 and Z3', 'the extractor (lib/rx.py, lib/vx.py)', 'slice::sort, sort_unstable_by_key'])
def plan(c):
    c.verus('merge.rs', min_verified=69)
    c.verus('cursors.rs', min_verified=15)
    c.verus('read.rs', min_verified=52)
    c.verus('expr.rs', min_verified=18)
    c.replay('replay.rs')
