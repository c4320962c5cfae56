INFO = dict(level='proof', assumptions=['the ordered map inside a set of ranges is std BTreeMap; its range/rev/take_while/map/collect chain returns the maximal descending run of keys not above the bound that satisfies the predicate',
  'ranges passed to overlap/include/intersect queries are not reversed (min <= max)', 'total_time is not asked of the whole 64-bit range (its length does not fit)'],
  trusted=['stub contracts on BTreeMap (ordered map) operations'])
def plan(c):
    c.verus('proof.rs', min_verified=15)
    c.replay('replay.rs', crate='base')
