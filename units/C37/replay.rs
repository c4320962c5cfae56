//@prelude
//@include route_replay.inc
fn service(r: &mut vx::Rng, p: Precision, hidden: bool, full: Option<i64>, moving: bool) -> CoordService {
    let m = Rc::new(TenantMeta::new("t", 1 + r.below(4) as usize, r.pick(&[3i64, 10, 1000]), p, hidden, full, moving));
    CoordService { meta: MetaManager(m, !r.chance(1, 25)), metrics: Metrics, log: Default::default(), refuse: if r.chance(1, 6) { (0..48).filter(|_| r.chance(1, 3)).collect() } else { vec![] } }
}
fn main() {
    let mut h = vx::H::new(); let mut r = h.rng(37);
    let ps = [Precision::MS, Precision::US, Precision::NS];
    for _ in 0..h.scale(60_000, 2_000_000) {
        let (p, dp) = (r.pick(&ps), r.pick(&ps)); let (full, moving, hidden) = (if r.chance(1, 12) { Some(r.below(20) as i64) } else { None }, r.chance(1, 5), r.chance(1, 30));
        let c = service(&mut r, dp, hidden, full, moving); let db = r.pick(&["d", "d", "d", "d", "d", "none"]); let tenant = r.pick(&["t", "t", "t", "t", "t", "t", "u"]);
        let n = if r.chance(1, 4000) { 2500 } else { r.below(9) }; let wild = r.chance(1, 10); let mut lines: Vec<Line<'static>> = vec![];
        for _ in 0..n { let tags: Vec<(String, String)> = names(&mut r, 3).into_iter().map(|k| (k, r.pick(&["", "1", "x", "host"]).to_string())).collect();
            let fields = if r.chance(1, 60) { vec![] } else { vec![(Cow::Borrowed("f"), FieldValue::I64(r.below(9) as i64))] };
            lines.push(Line::new(Cow::Owned(r.pick(&["cpu", "mem"]).to_string()), tags.iter().map(|(k, v)| (Cow::Owned(k.clone()), Cow::Owned(v.clone()))).collect(), fields, if wild { any_time(&mut r) } else { r.below(40) as i64 - 20 })); }
        let key = vx::hash(&format!("{lines:?} {p:?} {dp:?} {db} {tenant} {full:?} {moving} {hidden} {:?} {}", c.refuse, c.meta.0.sets));
        h.case("lines", key, &|| format!("precision {p:?} of a database of {dp:?}, {db} of {tenant}, hidden {hidden}, moving {moving}: {lines:?}"), &mut || {
            let m = c.meta.0.clone(); let mut want = vec![]; let mut bad = false;
            for l in &lines { let tags: Vec<(String, String)> = l.tags.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
                match convert(p, dp, l.timestamp) { None => bad = true, Some(t) => want.push((m.want(series(&l.table, &tags), t), format!("{l:?}"))) } if l.fields.is_empty() { bad = true; } }
            let got = c.lines(tenant, db, p, lines.clone()); let log = c.log.borrow();
            if hidden || db == "none" || tenant != "t" || bad { if got.is_ok() { return Err("a write that cannot be was acknowledged".into()); } }
            if !log.is_empty() || got.is_ok() { held(&log, &want, db, p, true)?; }
            if let Ok(n) = &got { let t: usize = log.iter().map(|x| match &x.1.command { Some(raft_write_command::Command::WriteData(w)) => w.data.len(), _ => 0 }).sum(); if *n != t { return Err(format!("{n} bytes written of {t}")); } if let Some((s, _)) = log.iter().find(|x| c.refuse.contains(&x.0.id)) { return Err(format!("set {} refused the write, which was acknowledged", s.id)); } }
            else if !hidden && db == "d" && tenant == "t" && !bad && full.is_none() && c.meta.1 && !want.iter().any(|w| c.refuse.contains(&w.0)) { return Err(format!("a good write failed: {got:?}")); }
            Ok(())
        });
    }
    use arrow_array::*; use arrow_schema::*;
    for _ in 0..h.scale(60_000, 2_000_000) {
        let (p, dp) = (r.pick(&ps), r.pick(&ps)); let (full, moving) = (if r.chance(1, 12) { Some(r.below(20) as i64) } else { None }, r.chance(1, 5));
        let c = service(&mut r, dp, false, full, moving); let n = if r.chance(1, 4000) { 2500 } else { r.below(9) as usize }; let wild = r.chance(1, 10);
        let times: Vec<i64> = (0..n).map(|_| if wild { any_time(&mut r) } else { r.below(40) as i64 - 20 }).collect();
        // columns in any order: tags, a field, another, the time as a timestamp or a number
        let mut cols: Vec<(String, ArrayRef, svc::ColumnType)> = vec![]; let tags = names(&mut r, 3);
        for t in &tags { let v: Vec<Option<&str>> = (0..n).map(|_| if r.chance(1, 4) { None } else { Some(r.pick(&["", "1", "x", "host"])) }).collect(); cols.push((t.clone(), Arc::new(StringArray::from(v)), svc::ColumnType::Tag)); }
        let dense = !r.chance(1, 20);
        for (k, f) in ["f", "g"].iter().enumerate() { let v: Vec<Option<f64>> = (0..n).map(|i| if (k == 1 || !dense) && r.chance(1, 2) { None } else { Some(i as f64 * 0.5) }).collect(); cols.push((f.to_string(), Arc::new(Float64Array::from(v)), svc::ColumnType::Field(svc::ValueType))); }
        let as_int = p == Precision::NS && r.chance(1, 3); let no_time = r.chance(1, 30);
        let ta: ArrayRef = if as_int { Arc::new(Int64Array::from(times.clone())) } else { match p { Precision::MS => Arc::new(TimestampMillisecondArray::from(times.clone())), Precision::US => Arc::new(TimestampMicrosecondArray::from(times.clone())), _ => Arc::new(TimestampNanosecondArray::from(times.clone())) } };
        if !no_time { cols.push(("time".into(), ta, svc::ColumnType::Time(TimeUnit::Nanosecond))); }
        for i in (1..cols.len()).rev() { let j = r.below(i as u64 + 1) as usize; cols.swap(i, j); }
        let schema = Arc::new(Schema::new(cols.iter().map(|(n, a, _)| Field::new(n.as_str(), a.data_type().clone(), true)).collect::<Vec<_>>()));
        let batch = RecordBatch::try_new(schema.clone(), cols.iter().map(|x| x.1.clone()).collect()).unwrap();
        let tenant = r.pick(&["t", "t", "t", "t", "t", "t", "u"]);
        let mut tc: Vec<svc::TableColumn> = cols.iter().map(|(n, _, t)| svc::TableColumn { name: n.clone(), column_type: t.clone() }).collect(); let unknown = r.chance(1, 40); if unknown { tc.remove(0); }
        let table = Arc::new(TskvTableSchema { tenant: tenant.into(), db: "d".into(), name: r.pick(&["cpu", "mem"]).into(), columns: tc });
        let text: Vec<String> = (0..n).map(|i| row_text(&table.name, &schema, batch.columns(), i)).collect();
        h.case("rows", vx::hash(&format!("{text:?} {p:?} {dp:?} {tenant} {full:?} {moving} {unknown} {:?} {}", c.refuse, c.meta.0.sets)), &|| format!("times of {p:?} to a database of {dp:?}, tenant {tenant}, moving {moving}: {text:#?}"), &mut || {
            let m = c.meta.0.clone(); let mut want = vec![]; let mut bad = unknown && n > 0 || no_time && n > 0;
            for i in 0..n {
                let ts: Vec<(String, String)> = cols.iter().filter(|x| x.2 == svc::ColumnType::Tag && !x.1.is_null(i)).map(|x| (x.0.clone(), x.1.as_any().downcast_ref::<StringArray>().unwrap().value(i).to_string())).collect();
                // where a line of the same series goes
                let line = Line::new(Cow::Borrowed(&table.name), ts.iter().map(|(k, v)| (Cow::Borrowed(k.as_str()), Cow::Borrowed(v.as_str()))).collect(), vec![], 0); let hash = series(&table.name, &ts); if line.hash_id != hash { return Err("the hash of a line".into()); }
                match convert(p, dp, times[i]) { None => bad = true, Some(t) => want.push((m.want(hash, t), text[i].clone())) }
                if cols.iter().all(|x| !matches!(x.2, svc::ColumnType::Field(_)) || x.1.is_null(i)) { bad = true; }
            }
            let got = c.batch(table.clone(), batch.clone(), dp); let log = c.log.borrow();
            if tenant != "t" || bad { if got.is_ok() { return Err("a write that cannot be was acknowledged".into()); } }
            if !log.is_empty() || got.is_ok() { held(&log, &want, "d", p, !moving)?; }
            if got.is_ok() { if let Some((s, _)) = log.iter().find(|x| c.refuse.contains(&x.0.id)) { return Err(format!("set {} refused the write, which was acknowledged", s.id)); } }
            else if tenant == "t" && !bad && full.is_none() && c.meta.1 && !want.iter().any(|w| c.refuse.contains(&w.0)) { return Err(format!("a good write failed: {got:?}")); }
            Ok(())
        });
    }
    h.done();
}
