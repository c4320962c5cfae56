INFO = dict(level='proof', assumptions=['DataFusion walks an expression as TreeNode::visit documents (pre_visit, children left to right, post_visit; Skip leaves out the children and post_visit)',
  'DataFusion\'s type coercion: a literal compared with a column has the column\'s type, timestamps may be of another unit; a literal compared with a tag or with time in DELETE is NULL or ordered',
  'a range or value list of the time column holds timestamps in nanoseconds (they come from to_nanosecond)', 'timestamps at either end of the 64-bit range stand for no bound in DELETE'],
  trusted=['stub contracts on Expr, ScalarValue (order, NULL, conversion to i64), VecDeque::back, Option::or_else/filter', 'contracts of Range, Domain, ColumnDomains (proved in C07) extended by: NULL lies in the full domain only', 'contract of TimeRange::from bounds (proved in C06)',
           'DeleteFromTableTask::execute glue between precision and predicate is replayed only'])
def plan(c):
    c.verus('proof.rs', min_verified=60)
    c.replay('replay.rs')
