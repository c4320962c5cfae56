import sys
sys.argv, args = [sys.argv[0], '-'], sys.argv[1:]
sys.path.insert(0, '/verif/tools')
exec(open('/verif/tools/seeds2.py').read().split("T='tskv")[0])
only = args
LC='common/protocol_parser/src/lines_convert.rs'
R36='''
fn l(table: &str, tags: &[(&str, &str)], fields: &[(&str, FieldValue)], ts: i64) -> L { L { table: table.into(), tags: tags.iter().map(|x| (x.0.into(), x.1.into())).collect(), fields: fields.iter().map(|x| (x.0.into(), x.1.clone())).collect(), ts } }
fn c(id: u32, n: &str, t: ColumnType) -> TableColumn { TableColumn { id, name: n.into(), column_type: t } }
fn sch(n: &str, cs: Vec<TableColumn>) -> Schemas { [(n.to_string(), Arc::new(schema(n, cs, Precision::NS)))].into_iter().collect() }
fn time() -> TableColumn { c(0, "time", ColumnType::Time(TimeUnit::Nanosecond)) }
'''
S('row_only_bool','C36',[('tskv/src/mem_cache/row_data.rs','''                                    fields[field_idx] = Some(FieldVal::Boolean(val));
                                    has_fields = true;
''','''                                    fields[field_idx] = Some(FieldVal::Boolean(val));
''')],
 'a row whose only values are booleans, among rows that have others','the row is refused, or left out of a replay',
 head2('C36')+R36+'''
fn main() { let s = sch("t", vec![time(), c(1, "a", ColumnType::Field(PhysicalDType::Integer)), c(2, "b", ColumnType::Field(PhysicalDType::Boolean))]); let i = FieldValue::I64(4); let b = FieldValue::Bool(false);
  for wal in [false, true] { for ls in [vec![l("t", &[], &[("a", i.clone())], 1), l("t", &[], &[("a", i.clone()), ("b", b.clone())], 2)], vec![l("t", &[], &[("a", i.clone())], 1), l("t", &[], &[("b", b.clone())], 2)]] { tell(&go(&ls, &s, Precision::NS, wal).unwrap(), &want(&ls, &s, Precision::NS)).unwrap(); } } }
''', cargo='fb')
S('series_key_order','C36',[('common/models/src/series_info.rs','''
        tag::sort_tags(&mut tags);
''','''
        if tags.len() > 16 {
            tag::sort_tags(&mut tags);
        }
''')],
 'tags whose columns stand in the written columns in another order than their ids','one series gets a key for each order its tags are written in',
 head2('C36')+R36+'''
fn main() { for ids in [[1, 2], [2, 1], [10, 9], [9, 10]] { let s = sch("t", vec![time(), c(ids[0], "g", ColumnType::Tag), c(ids[1], "h", ColumnType::Tag), c(30, "a", ColumnType::Field(PhysicalDType::Integer))]); let ls = vec![l("t", &[("h", "x"), ("g", "y")], &[("a", FieldValue::I64(1))], 1), l("t", &[("g", "y"), ("h", "x")], &[("a", FieldValue::I64(1))], 2)]; tell(&go(&ls, &s, Precision::NS, false).unwrap(), &want(&ls, &s, Precision::NS)).unwrap(); } }
''', cargo='fb')
S('string_valid','C36',[(LC,'''                    data.resize(row_count + 1, "".as_bytes());
                    data[row_count] = tag_value.as_bytes();
                    col.column_data
                        .valid
                        .append_n(row_count - col.column_data.valid.len(), false);
''','''                    data.resize(row_count + 1, "".as_bytes());
                    data[row_count] = tag_value.as_bytes();
                    col.column_data
                        .valid
                        .append_n(row_count - col.column_data.valid.len(), row_count == 1);
''')],
 'a batch whose first row in a table has no tag of a name that its second row has','the first row gets the tag, with an empty value, and goes to another series',
 head2('C36')+R36+'''
fn main() { let s = sch("t", vec![time(), c(1, "g", ColumnType::Tag), c(30, "a", ColumnType::Field(PhysicalDType::Integer))]); let i = || FieldValue::I64(4);
  for ls in [vec![l("t", &[("g", "x")], &[("a", i())], 1), l("t", &[], &[("a", i())], 2), l("t", &[("g", "y")], &[("a", i())], 2)], vec![l("t", &[], &[("a", i())], 1), l("t", &[("g", "y")], &[("a", i())], 2)]] { tell(&go(&ls, &s, Precision::NS, false).unwrap(), &want(&ls, &s, Precision::NS)).unwrap(); } }
''', cargo='fb')
SV='coordinator/src/service.rs'
R37=r'''
fn svc_(sets: usize, width: i64, dp: Precision, refuse: Vec<u32>) -> CoordService { CoordService { meta: MetaManager(Rc::new(TenantMeta::new("t", sets, width, dp, false, None, false)), true), metrics: Metrics, log: Default::default(), refuse } }
fn line_(host: &'static str, t: i64) -> Line<'static> { Line::new(Cow::Borrowed("cpu"), vec![(Cow::Borrowed("host"), Cow::Borrowed(host))], vec![(Cow::Borrowed("f"), FieldValue::I64(t))], t) }
fn want_(c: &CoordService, l: &[Line], p: Precision, dp: Precision) -> Vec<(u32, String)> { l.iter().map(|x| (c.meta.0.want(series(&x.table, &x.tags.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect::<Vec<_>>()), convert(p, dp, x.timestamp).unwrap()), format!("{x:?}"))).collect() }
'''
S('locate_write_precision','C37',[(SV,'.locate_replication_set_for_write(db, line.hash_id, ts)','.locate_replication_set_for_write(db, line.hash_id, if ts < 0 { line.timestamp } else { ts })')],
 'a write with another precision than the database\'s that has a time before 1970','the line goes to the bucket of another time, where a query of its time does not look',
 head2('C37')+R37+r'''
fn main() { for (p, dp) in [(Precision::MS, Precision::NS), (Precision::NS, Precision::MS), (Precision::NS, Precision::NS)] { for t in [5_000_000i64, -5_000_000, -1] { let c = svc_(3, 1000, dp, vec![]); let l = vec![line_("a", t), line_("b", t), line_("c", t + 1)]; c.lines("t", "d", p, l.clone()).unwrap(); let w = want_(&c, &l, p, dp); held(&c.log.borrow(), &w, "d", p, true).unwrap(); } } }
''', cargo='fb')
S('ack_last_request','C37',[(SV,'''        let now = tokio::time::Instant::now();
        for res in futures::future::join_all(requests).await {
            debug!(
                "Parallel write points on vnode over, start at: {:?}, elapsed: {} millis, result: {:?}",
                now,
                now.elapsed().as_millis(),
                res
            );
            res?
        }
        self.metrics
            .write_replica_duration(tenant, db)
            .add(now.elapsed().as_millis() as u64);

        Ok(write_bytes)
    }

    async fn write_record_batch''','''        let now = tokio::time::Instant::now();
        let mut last = Ok(());
        for res in futures::future::join_all(requests).await {
            debug!(
                "Parallel write points on vnode over, start at: {:?}, elapsed: {} millis, result: {:?}",
                now,
                now.elapsed().as_millis(),
                res
            );
            last = res;
        }
        last?;
        self.metrics
            .write_replica_duration(tenant, db)
            .add(now.elapsed().as_millis() as u64);

        Ok(write_bytes)
    }

    async fn write_record_batch''')],
 'a write to several replication sets of which one refuses that is not the last','the write is acknowledged, the lines of that set are lost',
 head2('C37')+R37+r'''
fn main() { for bad in 0..4u32 { for _ in 0..8 { let c = svc_(4, 1000, Precision::NS, vec![bad]); let l: Vec<Line> = ["a", "b", "c", "d", "e", "f", "g", "h"].iter().map(|h| line_(h, 3)).collect(); let w = want_(&c, &l, Precision::NS, Precision::NS); assert!((0..4).all(|s| w.iter().any(|x| x.0 == s))); assert!(c.lines("t", "d", Precision::NS, l).is_err(), "set {bad} refused its lines"); } } }
''', cargo='fb')
S('insert_time_unit','C37',[(SV,'Ok((Precision::MS, value))','Ok((if value < 0 { Precision::US } else { Precision::MS }, value))')],
 'an INSERT with a time column of milliseconds and a time before 1970','the row is stored at another time',
 head2('C37')+R37+r'''
fn main() { use arrow_array::*; use arrow_schema::*; for t in [5i64, 0, -1, -7_000] {
  let s = Arc::new(Schema::new(vec![Field::new("time", DataType::Timestamp(TimeUnit::Millisecond, None), true), Field::new("f", DataType::Float64, true)]));
  let b = RecordBatch::try_new(s.clone(), vec![Arc::new(TimestampMillisecondArray::from(vec![t, t])), Arc::new(Float64Array::from(vec![1.0, 2.0]))]).unwrap(); let c = svc_(2, 1000, Precision::NS, vec![]);
  let table = Arc::new(TskvTableSchema { tenant: "t".into(), db: "d".into(), name: "cpu".into(), columns: vec![svc::TableColumn { name: "time".into(), column_type: svc::ColumnType::Time(TimeUnit::Nanosecond) }, svc::TableColumn { name: "f".into(), column_type: svc::ColumnType::Field(svc::ValueType) }] });
  c.batch(table.clone(), b.clone(), Precision::NS).unwrap(); let w: Vec<(u32, String)> = (0..2).map(|i| (c.meta.0.want(series("cpu", &[]), t * 1_000_000), row_text("cpu", &s, b.columns(), i))).collect(); held(&c.log.borrow(), &w, "d", Precision::MS, true).unwrap(); } }
''', cargo='fb')
JP='common/protocol_parser/src/json_protocol/parser.rs'
S('json_time_float','C38',[(JP,"""                serde_json::Value::Number(timestamp_num) => match timestamp_num.as_i64() {
""","""                serde_json::Value::Number(timestamp_num) => match timestamp_num
                    .as_f64()
                    .filter(|time| time.fract() == 0.0)
                    .map(|time| time as i64)
                {
""")],
 'a time of nanoseconds that a double does not hold','a log is stored up to 128 ns away from its time',
 head2('C38')+'''
fn main() { for t in [5i64, 1_600_000_000_000_000_000, 1_600_000_000_000_000_001, 1_600_000_000_123_456_789, i64::MAX] { let v = http::log(format!("{{\\"time\\":{t},\\"m\\":\\"x\\"}}").into_bytes(), JsonType::Ndjson, false, "tab", None, None).unwrap(); assert_eq!(v[0].ts, t); } }
''', cargo='base')
S('json_array_text','C38',[(JP,"""                let res = flatten_json(idx.to_string(), value.clone());
""","""                let res = flatten_json(((b'0' + idx as u8) as char).to_string(), value.clone());
""")],
 'an array of more than ten values in a log','the values after the tenth get names that no reader looks for',
 head2('C38')+'''
fn main() { for n in [1usize, 3, 10, 12] { let v = http::log(serde_json::json!({"time": 5, "a": (0..n).collect::<Vec<_>>()}).to_string().into_bytes(), JsonType::Ndjson, false, "tab", None, None).unwrap(); let mut w: Vec<_> = (0..n).map(|i| (format!("a.{i}"), FieldValue::F64(i as f64))).collect(); w.sort_by(|a, b| a.0.cmp(&b.0)); assert_eq!(v[0].fields, w); } }
''', cargo='base')
S('put_tag_split','C38',[('common/protocol_parser/src/open_tsdb/parser.rs',"""            let tag = token.split('=').collect::<Vec<&str>>();
""","""            let tag = token.split('=').take(2).collect::<Vec<&str>>();
""")],
 'a telnet put whose tag value holds an equals sign','the value is stored up to the sign, where the put was refused',
 head2('C38')+'''
fn main() { for b in ["put a 1600000000 2 b=c\\n", "put a 1600000000 2 b=c d=e\\nput a 1 2\\n", "put a 1600000000 2 b=c\\nput a 1600000000 2 b=c=d\\n", "put a 1600000000 2 b=\\n"] { stream(&[vec![b.as_bytes().to_vec()]]).unwrap(); } }
''', cargo='base')
S('datapoint_tags','C38',[('common/protocol_parser/src/lib.rs',"""            .into_iter()
            .map(|(s1, s2)| (Cow::Borrowed(s1), Cow::Borrowed(s2)))
""","""            .into_iter()
            .map(|(s1, s2)| (Cow::Borrowed(s1.trim()), Cow::Borrowed(s2.trim())))
""")],
 'a tag of a JSON put that begins or ends with a space','the point joins the series of another tag value',
 head2('C38')+'''
fn main() { for v in ["x", "x y", " x", "x "] { let b = serde_json::json!({"metric": "m", "timestamp": 5, "value": 1.5, "tags": {"a": v}}).to_string(); same(&http::put(&b.into_bytes()).unwrap(), &[point("m", 5, 1.5, &[("a".into(), v.into())])]).unwrap(); } }
''', cargo='base')
PS='query_server/query/src/prom/remote_server.rs'; PW='query_server/query/src/prom/time_series/writer.rs'
R39='''
fn l_(n: &str, v: &str) -> Label { Label { name: n.into(), value: v.into() } }
fn ts_(l: &[(&str, &str)], s: &[(i64, f64)]) -> TimeSeries { TimeSeries { labels: l.iter().map(|x| l_(x.0, x.1)).collect(), samples: s.iter().map(|x| Sample { timestamp: x.0, value: x.1 }).collect(), ..Default::default() } }
'''
S('prom_name_kept','C39',[(PS,"""        for ts in req.timeseries.iter() {
            let mut table_name = DEFAULT_PROM_TABLE_NAME;
""","""        let mut table_name = DEFAULT_PROM_TABLE_NAME;
        for ts in req.timeseries.iter() {
""")],
 'a write of several series of which a later one has no metric name','the series without a name is stored in the table of the one before it',
 head2('C39')+R39+'''
fn main() { let a = ts_(&[("__name__", "cpu"), ("h", "1")], &[(5, 1.0)]); let b = ts_(&[("h", "2")], &[(6, 2.0)]); for v in [vec![a.clone()], vec![b.clone(), a.clone()], vec![a.clone(), b.clone()], vec![a.clone(), b, a]] { written(&WriteRequest { metadata: vec![], timeseries: v }).unwrap(); } }
''', cargo='prom')
S('prom_stale_dropped','C39',[(PS,"""            for sample in ts.samples.iter() {
""","""            for sample in ts.samples.iter().filter(|sample| !sample.value.is_nan()) {
""")],
 'a write of a sample that is not a number, as Prometheus marks the end of a series','the sample is acknowledged and not stored',
 head2('C39')+R39+'''
fn main() { for v in [1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN] { written(&WriteRequest { metadata: vec![], timeseries: vec![ts_(&[("__name__", "cpu"), ("h", "1")], &[(5, 1.0), (6, v), (7, 2.0)])] }).unwrap(); } }
''', cargo='prom')
S('prom_names_sorted','C39',[(PW,"""        let tag_names = tags.fields().iter().map(|e| e.name()).cloned().collect();
""","""        let mut tag_names: Vec<String> = tags.fields().iter().map(|e| e.name()).cloned().collect();
        // Prometheus wants the labels of a series by name
        tag_names.sort();
""")],
 'a read of a table whose tag columns are not in alphabetical order','the labels of the series have the values of each other',
 head2('C39')+'''
fn main() { for n in [&["a", "b"][..], &["job"], &["job", "host"], &["b", "c", "a"]] { let rows: Rows = (0..4).map(|i| (n.iter().map(|x| Some(format!("{x}{}", i % 2))).collect(), Some(i as f64), i as i64)).collect(); read(n, TimeUnit::Nanosecond, &rows, &[2], 0).unwrap(); } }
''', cargo='prom')
S('prom_names_distinct','C39',[(PW,"""        self.labels_to_series
            .entry(labels_str)
            .or_insert_with(|| TimeSeries {
                labels,
                ..Default::default()
            })
            .samples
            .push(sample);
""","""        let samples = &mut self
            .labels_to_series
            .entry(labels_str)
            .or_insert_with(|| TimeSeries {
                labels,
                ..Default::default()
            })
            .samples;
        // one sample of a time
        if samples.last().map(|last| last.timestamp) != Some(sample.timestamp) {
            samples.push(sample);
        }
""")],
 'a read of two samples of a series within one millisecond','the second sample is left out',
 head2('C39')+'''
fn main() { for times in [[1i64, 2, 3, 4], [1, 2, 2, 3], [7, 7, 7, 7]] { let rows: Rows = times.iter().enumerate().map(|(i, t)| (vec![Some("x".to_string())], Some(i as f64), *t)).collect(); read(&["host"], TimeUnit::Nanosecond, &rows, &[2], 0).unwrap(); } }
''', cargo='prom')
IX='tskv/src/index/ts_index.rs'; IM='tskv/src/index/cache.rs'
def hist(ops, cap=100): return head2('C21')+'''
fn upd(g: &[(u32, Option<&str>)]) -> Vec<UpdateSetValue<TagKey, TagValue>> { g.iter().map(|x| UpdateSetValue { key: x.0.to_string().into_bytes(), value: x.1.map(|v| v.as_bytes().to_vec()) }).collect() }
fn eq(v: &[&str]) -> Domain { Domain::Equtable(EqutableValueSet(true, v.iter().map(|x| ValueEntry(ScalarValue::Utf8(Some(x.to_string())))).collect())) }
fn from(v: &str) -> Domain { Domain::Range(RangeValueSet(vec![((), Range(Bound::Included(ScalarValue::Utf8(Some(v.to_string()))), Bound::Unbounded))])) }
fn main() { let _ = (upd(&[]), eq(&[]), from("")); for cap in [0u64, 100] { %s } }
''' % ops
S('idx_empty_tag','C21',[(IX,"""                series_ids.push(rb);
""","""                // a tag that says nothing is left out
                if !rb.is_empty() || series_ids.is_empty() {
                    series_ids.push(rb);
                }
""")],
 'a condition on two tags of which the second one read has no series','the series of the other tag are returned',
 hist('''for _ in 0..40 { run(&[Op::Add(vec![sk("a", &[(1, "x"), (2, "y")])]), Op::By("a".into(), Some(vec![(1, eq(&["x"])), (2, eq(&["x"]))]))], cap).unwrap(); }'''), cargo='base')
S('idx_tagless_del','C21',[(IM,"""        if key.tags().is_empty() {
            self.del_inverted(key.table(), &[], &[], id);
        }

        let key_buf""","""        let key_buf""")],
 'a series without tags that is deleted before it is flushed','it is still listed',
 hist('''run(&[Op::Add(vec![sk("a", &[]), sk("a", &[(1, "x")])]), Op::Del(0), Op::List("a".into(), vec![])], cap).unwrap();'''), cargo='base')
S('idx_id_reused','C21',[(IX,"""        let id_bytes = self.incr_id.load(Ordering::Relaxed).to_be_bytes();
        self.storage.set(AUTO_INCR_ID_KEY.as_bytes(), &id_bytes)?;
        self.cache""","""        if count > 0 {
            let id_bytes = self.incr_id.load(Ordering::Relaxed).to_be_bytes();
            self.storage.set(AUTO_INCR_ID_KEY.as_bytes(), &id_bytes)?;
        }
        self.cache""")],
 'a flush of which the counter of writes is zero (series that a rebuild has put back), then a reopening','the last id is not kept and is given again',
 hist('''run(&[Op::Rebuild, Op::Add(vec![sk("a", &[(1, "x")])]), Op::Flush, Op::Reopen, Op::Add(vec![sk("a", &[(1, "y")])])], cap).unwrap(); run(&[Op::Rebuild, Op::Flush, Op::Reopen, Op::Add(vec![sk("b", &[(1, "y")])]), Op::Rebuild, Op::Reopen, Op::Add(vec![sk("c", &[(1, "y")])])], cap).unwrap();'''), cargo='base')
S('idx_empty_value','C21',[(IX,"""                .flat_map(|(key, value)| value.map(|val| Tag::new(key.to_vec(), val.to_vec())))
""","""                .flat_map(|(key, value)| value.map(|val| Tag::new(key.to_vec(), val.to_vec())))
                .filter(|tag| !tag.value.is_empty())
""")],
 'an update of a tag of a series of which another tag is the empty text','the empty tag is taken from the series',
 hist('''run(&[Op::Add(vec![sk("a", &[(1, "x"), (2, "")])]), Op::Update(vec![0], upd(&[(1, Some("y"))])), Op::Get(sk("a", &[(1, "y"), (2, "")]))], cap).unwrap();'''), cargo='base')
S('idx_range_last','C21',[(IX,"""        .chain(">".as_bytes())
""","""        .chain("=~".as_bytes())
""")],
 'a condition tag >= v on flushed series, a value beginning with a character beyond ASCII','the series is not found',
 hist('''run(&[Op::Add(vec![sk("a", &[(1, "x")]), sk("a", &[(1, "中")])]), Op::Flush, Op::By("a".into(), Some(vec![(1, from("x"))]))], cap).unwrap();'''), cargo='base')
S('idx_update_fresh','C21',[(IX,"""            self.add_tombstone_series(*sid, old_series).await?;

            self.cache.write""","""            self.add_tombstone_series(*sid, old_series).await?;

            if old_series.tags().is_empty() {
                // it had no entry of its own
                self.cache.cache(*sid, new_series.clone());
                continue;
            }
            self.cache.write""")],
 'an update that gives a tag to a series without tags','the series is not found by its tag',
 hist('''run(&[Op::Add(vec![sk("a", &[])]), Op::Update(vec![0], upd(&[(1, Some("y"))])), Op::List("a".into(), vec![Tag::mk(1, "y")])], cap).unwrap();'''), cargo='base')
