INFO = dict(level='proof', assumptions=['the values of one column type form a total order (ScalarValue::partial_cmp; DataFusion orders floats totally)',
  'a column has one type, and the type decides whether its domains are ranges or value lists (is_orderable)', 'the ranges a domain is built from are not empty (stated precondition)',
  'ColumnDomains::translate_column is checked by replay only'],
  trusted=['stub contracts on ScalarValue, DataType, BTreeMap<Marker, Range>, HashSet<ValueEntry> (union, intersection, difference), HashMap<T, Domain>, sort_by'])
def plan(c):
    c.verus('proof.rs', min_verified=70)
    c.replay('replay.rs')
