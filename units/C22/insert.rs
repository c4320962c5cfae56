//@prelude
// the hash an INSERT routes a row by: the same as for a line of the series
//@include ../C37/route_replay.inc
fn main() {
    let mut h = vx::H::new(); let mut r = h.rng(2237);
    use arrow_array::*; use arrow_schema::*;
    for _ in 0..h.scale(20_000, 500_000) {
        let m = Rc::new(TenantMeta::new("t", 16, 1000, Precision::NS, false, None, false)); let c = CoordService { meta: MetaManager(m, true), metrics: Metrics, log: Default::default(), refuse: vec![] };
        let mut cols: Vec<(String, ArrayRef, svc::ColumnType)> = vec![]; let tags = names(&mut r, 5); let mut ts: Vec<(String, String)> = vec![];
        for t in &tags { let v: Option<&str> = if r.chance(1, 4) { None } else { Some(r.pick(&["", "1", "x", "host", "h", "é"])) }; if let Some(v) = v { ts.push((t.clone(), v.into())); } cols.push((t.clone(), Arc::new(StringArray::from(vec![v])), svc::ColumnType::Tag)); }
        cols.push(("f".into(), Arc::new(Float64Array::from(vec![1.0])), svc::ColumnType::Field(svc::ValueType))); cols.push(("time".into(), Arc::new(TimestampNanosecondArray::from(vec![5])), svc::ColumnType::Time(TimeUnit::Nanosecond)));
        for i in (1..cols.len()).rev() { let j = r.below(i as u64 + 1) as usize; cols.swap(i, j); }
        let schema = Arc::new(Schema::new(cols.iter().map(|(n, a, _)| Field::new(n.as_str(), a.data_type().clone(), true)).collect::<Vec<_>>()));
        let batch = RecordBatch::try_new(schema, cols.iter().map(|x| x.1.clone()).collect()).unwrap();
        let table = Arc::new(TskvTableSchema { tenant: "t".into(), db: "d".into(), name: r.pick(&["cpu", "mem", ""]).into(), columns: cols.iter().map(|(n, _, t)| svc::TableColumn { name: n.clone(), column_type: t.clone() }).collect() });
        h.case("insert", vx::hash(&format!("{:?} {ts:?} {:?}", table.name, cols.iter().map(|x| &x.0).collect::<Vec<_>>())), &|| format!("table {:?} tags {ts:?} columns {:?}", table.name, cols.iter().map(|x| &x.0).collect::<Vec<_>>()), &mut || {
            let w = series(&table.name, &ts); c.batch(table.clone(), batch.clone(), Precision::NS).map_err(|e| format!("{e:?}"))?;
            let line = Line::new(Cow::Borrowed(&table.name), ts.iter().map(|(k, v)| (Cow::Borrowed(k.as_str()), Cow::Borrowed(v.as_str()))).collect(), vec![], 5);
            let log = c.log.borrow(); let (got, lw) = (log[0].0.id % 16, (line.hash_id % 16) as u32);
            if got != (w % 16) as u32 || lw != (w % 16) as u32 { return Err(format!("the hash of an INSERTed row is {got} mod 16, of a line {lw}, must be {}", w % 16)); }
            Ok(())
        });
    }
    h.done();
}
