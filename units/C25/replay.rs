//@prelude
//@include recfile.inc
use recfile::*;
use std::path::{Path, PathBuf};
#[derive(Clone, PartialEq, Debug)]
struct Rec { ver: u8, ty: u8, data: Vec<u8>, pos: usize }
// what was written, and where: the bytes a file has to hold
#[derive(Clone, Default)]
struct Model { len: usize, recs: Vec<Rec> }
fn is(r: &Record, m: &Rec) -> bool { r.data_version == m.ver && r.data_type == m.ty && r.data == m.data && r.pos as usize == m.pos }
// everything a reader that passes over broken records gives
fn read_all(r: &mut Reader) -> Result<Vec<Rec>, String> {
    let mut out = vec![]; let mut n = 0u64;
    loop {
        n += 1; if n > 5_000_000 { return Err("the reader does not come to an end".into()); }
        match r.read_record() {
            Ok(x) => out.push(Rec { ver: x.data_version, ty: x.data_type, data: x.data, pos: x.pos as usize }),
            Err(TskvError::Eof) => return Ok(out),
            Err(TskvError::RecordFileInvalidDataSize { .. }) | Err(TskvError::RecordFileHashCheckFailed { .. }) => continue,
            Err(e) => return Err(format!("reader: {e}")),
        }
    }
}
fn show(v: &[Rec]) -> String { v.iter().map(|r| format!("{}+{}", r.pos, r.data.len())).collect::<Vec<_>>().join(" ") }
fn same(what: &str, got: &[Rec], want: &[Rec]) -> Result<(), String> { if got == want { Ok(()) } else { Err(format!("{what}: read records at [{}], written at [{}]", show(got), show(want))) } }
// a record torn inside a run of magic numbers would be made whole by the next record's: such runs end with another byte
fn payload(r: &mut Rng) -> Vec<Vec<u8>> {
    let k = r.below(4) as usize;
    (0..k).map(|_| { let n = r.pick(&[0usize, 0, 1, 2, 3, 5, 13, 14, 40, 200]); match r.below(4) { 0 => (0..n).map(|i| if i + 1 == n { 0xee } else { 0 }).collect(), 1 => (0..n).map(|i| if i + 1 == n { 0xee } else { b"FlOgRECOFlOgFlog"[i % 16] }).collect(), 2 => { let m = RECORD_MAGIC.to_be_bytes(); (0..n).map(|i| if i + 1 == n { 0xee } else { m[i % 4] }).collect() } _ => r.bytes(n) } }).collect()
}
const RECORD_MAGIC: u32 = recfile::RECORD_MAGIC_NUMBER;
fn add(w: &mut Writer, m: &mut Model, r: &mut Rng) -> Result<(), String> {
    let d = payload(r); let ver = r.below(3) as u8 + 1; let ty = r.below(4) as u8; let flat: Vec<u8> = d.concat();
    let n = w.write_record(ver, ty, &d).map_err(|e| format!("write_record: {e}"))?;
    if n != 14 + flat.len() { return Err(format!("write_record says {n} bytes for {} of data", flat.len())); }
    m.recs.push(Rec { ver, ty, data: flat, pos: m.len }); m.len += n;
    if w.file_size() as usize != m.len { return Err(format!("file_size {} after {} bytes", w.file_size(), m.len)); }
    Ok(())
}
fn open(p: &Path, m: &mut Model, buf: usize) -> Result<Writer, String> { let w = Writer::open(p, buf).map_err(|e| format!("Writer::open: {e}"))?; if m.len < 4 { m.len = 4; m.recs.clear(); } if w.file_size() as usize != m.len { return Err(format!("opened at {} of {} bytes", w.file_size(), m.len)); } Ok(w) }
// bytes that are no footer but look like one (a hash of four bytes is all that tells): only a file whose torn head is all zeroes has a chance here
fn footer_by_accident(b: &[u8]) -> bool { b.len() >= 36 && { let n = if b.len() > 1060 { 1024 } else { b.len() - 36 }; crc(&b[4..4 + n]).to_be_bytes() == b[b.len() - 28..b.len() - 24] } }
fn history(seed: u64, trace: &mut Vec<String>) -> Result<(), String> {
    reset(); let mut r = Rng(seed); let p = PathBuf::from("f"); let mut m = Model::default();
    SHORT.with(|x| x.set(r.pick(&[0usize, 0, 1, 3, 7]))); INTR.with(|x| x.set(r.chance(1, 3)));
    for _ in 0..r.below(5) + 1 {
        let buf = r.pick(&[0usize, 1, 16, 100, 1000, 1 << 20]); let mut w = open(&p, &mut m, buf)?; trace.push(format!("open(buf {buf})"));
        let mut durable = 0; // how much a crash keeps at least
        for _ in 0..r.below(8) {
            match r.below(6) {
                0 => { w.sync().map_err(|e| format!("sync: {e}"))?; durable = m.len; trace.push("sync".into()); }
                1 => { let mut rd = w.new_reader().map_err(|e| format!("new_reader: {e}"))?; durable = m.len; trace.push("read".into()); same("new_reader", &read_all(&mut rd)?, &m.recs)?;
                    for _ in 0..5 { if m.recs.is_empty() { break; } let x = r.pick(&m.recs); match rd.read_record_at(x.pos as u64) { Ok(y) if is(&y, &x) => {} o => return Err(format!("read_record_at({}) gives {:?}", x.pos, o.map(|y| y.pos))) } } }
                2 if !m.recs.is_empty() => { let k = r.below(m.recs.len() as u64) as usize; let at = m.recs[k].pos; trace.push(format!("truncate({at})")); w.truncate(at as u64).map_err(|e| format!("truncate: {e}"))?; m.recs.truncate(k); m.len = at; durable = at; if w.file_size() as usize != at { return Err(format!("file_size {} after truncate({at})", w.file_size())); } }
                _ => { add(&mut w, &mut m, &mut r)?; trace.push(format!("write {}", m.recs.last().unwrap().data.len())); }
            }
        }
        match r.below(4) {
            0 => { // a footer
                let mut f = [7u8; FOOTER]; w.write_footer(&mut f).map_err(|e| format!("write_footer: {e}"))?; w.close().map_err(|e| format!("close: {e}"))?; trace.push("footer".into());
                let b = get(&p); if b.len() != m.len + FOOTER { return Err(format!("{} bytes with the footer, of {}", b.len(), m.len)); }
                let mut rd = Reader::open(&p).map_err(|e| format!("open: {e}"))?; if rd.footer() != Some(f) { return Err("the footer read is not the one written".into()); }
                same("with a footer", &read_all(&mut rd)?, &m.recs)?;
            }
            1 | 2 => { // a crash: any part of what was not synced may be gone; a part may be zeroes
                drop(w); let mut b = get(&p); let lo = durable.min(b.len()); let cut = lo + r.below((b.len() - lo) as u64 + 1) as usize; b.truncate(cut);
                let z = if cut > lo && r.chance(1, 4) { r.below((cut - lo) as u64 + 1) as usize } else { 0 }; let n = b.len(); for x in &mut b[n - z..] { *x = 0; }
                let good = cut - z; trace.push(format!("crash at {cut}, last {z} zero"));
                let broken: Vec<Rec> = m.recs.iter().filter(|x| x.pos + 14 + x.data.len() > good && (x.pos + 14 + x.data.len() > cut || b[x.pos..x.pos + 4] != RECORD_MAGIC.to_be_bytes() || z > 0 && (x.data.len() + x.pos + 14).saturating_sub(good).min(x.data.len() + 14) > 0 && !unharmed(&b, x))).cloned().collect();
                m.recs.retain(|x| !broken.contains(x)); m.len = cut; if footer_by_accident(&b) { return Ok(()); } put(&p, b);
                if cut >= 4 { let mut rd = Reader::open(&p).map_err(|e| format!("open: {e}"))?; same("after the crash", &read_all(&mut rd)?, &m.recs)?; } else { if let Ok(mut rd) = Reader::open(&p) { same("torn magic number", &read_all(&mut rd)?, &[])?; } }
            }
            _ => { w.close().map_err(|e| format!("close: {e}"))?; trace.push("close".into()); if footer_by_accident(&get(&p)) { return Ok(()); } let mut rd = Reader::open(&p).map_err(|e| format!("open: {e}"))?; same("reopened", &read_all(&mut rd)?, &m.recs)?; }
        }
    }
    Ok(())
}
// zeroes where there were zeroes change nothing
fn unharmed(b: &[u8], x: &Rec) -> bool { b.len() >= x.pos + 14 + x.data.len() && b[x.pos..x.pos + 14 + x.data.len()] == enc(x)[..] }
fn enc(x: &Rec) -> Vec<u8> { let mut o = RECORD_MAGIC.to_be_bytes().to_vec(); let mut h = vec![x.ver, x.ty]; h.extend((x.data.len() as u32).to_be_bytes()); o.extend(&h); h.extend(&x.data); o.extend(crc(&h).to_be_bytes()); o.extend(&x.data); o }
fn crc(b: &[u8]) -> u32 { let mut c = !0u32; for x in b { c ^= *x as u32; for _ in 0..8 { c = if c & 1 == 1 { 0xedb88320 ^ (c >> 1) } else { c >> 1 }; } } !c }
fn main() {
    let mut h = H::new();
    // every place a crash can tear a file at, with records written behind it
    for lens in [vec![0usize], vec![3], vec![0, 0], vec![5, 1, 30], vec![20, 0, 14, 2]] { for pat in 0..3u8 {
        let total: usize = 4 + lens.iter().map(|x| 14 + x).sum::<usize>();
        for cut in 0..=total { for more in [0usize, 1, 2] { for blen in [0usize, 9] {
            let l = lens.clone();
            h.case("torn", vx::hash(&("torn", &l, pat, cut, more, blen)), &|| format!("records of {:?} bytes (pattern {pat}), cut at {cut}, then {more} records of {blen} bytes", l), &mut || {
                reset(); let p = PathBuf::from("f"); let mut m = Model::default(); let mut w = open(&p, &mut m, 1 << 20)?;
                for n in &l { let d: Vec<u8> = (0..*n).map(|i| match pat { 0 => 0, 1 if i + 1 < *n => RECORD_MAGIC.to_be_bytes()[i % 4], 1 => 0xee, _ => i as u8 }).collect(); let k = w.write_record(1, 2, [&d]).map_err(|e| format!("{e}"))?; m.recs.push(Rec { ver: 1, ty: 2, data: d, pos: m.len }); m.len += k; }
                w.close().map_err(|e| format!("{e}"))?; let mut b = get(&p); b.truncate(cut); m.recs.retain(|x| x.pos + 14 + x.data.len() <= cut); m.len = cut; put(&p, b);
                let mut w = open(&p, &mut m, 0)?;
                for i in 0..more { let d = vec![i as u8; blen]; let k = w.write_record(3, 4, [&d]).map_err(|e| format!("{e}"))?; m.recs.push(Rec { ver: 3, ty: 4, data: d, pos: m.len }); m.len += k; }
                w.close().map_err(|e| format!("{e}"))?; let mut rd = Reader::open(&p).map_err(|e| format!("{e}"))?; same("read back", &read_all(&mut rd)?, &m.recs)
            });
        } } }
    } }
    h.exhaustive("every cut of five small files, followed by up to two records");
    let n = h.scale(20_000, 300_000);
    for i in 0..n {
        let seed = h.rng(7 + i).next(); let mut trace = vec![]; let mut shown = String::new();
        { let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| history(seed, &mut trace))); shown = trace.join(", "); let mut r = Some(r);
          h.case("history", vx::hash(&("hist", seed)), &|| format!("seed {seed}: {shown}"), &mut || match r.take().unwrap() { Ok(x) => x, Err(p) => Err(format!("panicked: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default())) }); }
    }
    // a file beyond the reader's buffer, read forward, at random places and with failing reads
    for i in 0..h.scale(6, 60) {
        let seed = h.rng(1_000_000 + i).next();
        h.case("large", vx::hash(&("large", seed)), &|| format!("large file, seed {seed}"), &mut || {
            reset(); let mut r = Rng(seed); let p = PathBuf::from("f"); let mut m = Model::default(); let mut w = open(&p, &mut m, 1 << 16)?;
            while m.len < 2_600_000 { let n = r.pick(&[0usize, 1, 100, 5000, 70_000, 1_100_000]) + r.below(20) as usize; let cap = r.pick(&[200usize, 100_000, 2_000_000]); let d = r.bytes(n.min(cap)); let k = w.write_record(1, 1, [&d]).map_err(|e| format!("{e}"))?; m.recs.push(Rec { ver: 1, ty: 1, data: d, pos: m.len }); m.len += k; }
            let mut rd = w.new_reader().map_err(|e| format!("{e}"))?; same("large", &read_all(&mut rd)?, &m.recs)?;
            for _ in 0..60 {
                let k = r.below(m.recs.len() as u64) as usize; let x = m.recs[k].clone();
                if r.chance(1, 3) { fail_at(0); let _ = rd.read_record_at(m.recs[r.below(m.recs.len() as u64) as usize].pos as u64); fail_at(u64::MAX); }
                match rd.read_record_at(x.pos as u64) { Ok(y) if is(&y, &x) => {} o => return Err(format!("read_record_at({}) gives {:?}", x.pos, o.map(|y| (y.pos, y.data.len())))) }
                if k + 1 < m.recs.len() && r.chance(1, 2) { match rd.read_record() { Ok(y) if is(&y, &m.recs[k + 1]) => {} o => return Err(format!("read_record behind {} gives {:?}", x.pos, o.map(|y| (y.pos, y.data.len())))) } }
            }
            Ok(())
        });
    }
    // a failing call loses what was buffered, nothing that was there before
    for i in 0..h.scale(3000, 40_000) {
        let seed = h.rng(2_000_000 + i).next();
        h.case("fault", vx::hash(&("fault", seed)), &|| format!("failing call, seed {seed}"), &mut || {
            reset(); let mut r = Rng(seed); let p = PathBuf::from("f"); let mut m = Model::default(); let mut w = open(&p, &mut m, r.pick(&[0usize, 50, 1 << 20]))?; SHORT.with(|x| x.set(r.pick(&[0usize, 1, 5])));
            for _ in 0..r.below(4) { add(&mut w, &mut m, &mut r)?; } w.sync().map_err(|e| format!("{e}"))?; let before = m.clone();
            fail_at(r.below(6)); let mut ok = true; let mut tried = vec![]; for _ in 0..3 { let d = payload(&mut r).concat(); if w.write_record(9, 9, [&d]).is_err() { ok = false; break; } tried.push(d); } if ok && w.sync().is_err() { ok = false; } fail_at(u64::MAX);
            let mut rd = Reader::open(&p).map_err(|e| format!("{e}"))?; let got = read_all(&mut rd)?;
            if got.len() < before.recs.len() { return Err(format!("records lost: [{}] of [{}]", show(&got), show(&before.recs))); } same("before the failure", &got[..before.recs.len()], &before.recs)?;
            if ok && got.len() != before.recs.len() + tried.len() { return Err(format!("{} records after {} more were written", got.len(), tried.len())); }
            // the writer goes on
            let mut m2 = before.clone(); if !ok { m2.len = w.file_size() as usize; let d = b"again".to_vec(); let at = m2.len; w.write_record(1, 1, [&d]).map_err(|e| format!("{e}"))?; w.sync().map_err(|e| format!("{e}"))?;
                let mut rd = Reader::open(&p).map_err(|e| format!("{e}"))?; let got = read_all(&mut rd)?; if !got.iter().any(|x| x.data == d && x.pos == at) { return Err(format!("the record written after the failure at {at} is not read: [{}]", show(&got))); } same("before", &got[..before.recs.len()], &before.recs)?; }
            Ok(())
        });
    }
    h.done();
}
