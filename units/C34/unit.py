INFO=dict(level='proof', assumptions=['machine integers of the expressions do not overflow (times near the ends of the 64-bit range), `%` of two integers has the sign of the first (arrow)',
    'DataFusion: filter keeps the rows for which the expression is true, project and expand give each row once per list of expressions, is_not_null is true of a row with a time',
    'the time column is worth the time of the row in ns, the start time is a constant (cast to an integer)',
    'finding recorded, not repaired: where no whole number of slides makes a window, rows may also stand in a window that ended before their time; for this case the contract asks for every right window, each once'],
  trusted=['Verus 0.2026.09.13 and Z3', 'the extractor (lib/rx.py, lib/vx.py)'])
def plan(c):
    c.verus('window.rs', min_verified=56)
    c.replay('replay.rs')
