//! Torn writes of multi-sector records (Torn.tla, C05).
use crate::img::*;
use crate::util::*;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::NtfsIndexAllocation;
use ntfs::types::Vcn;
use ntfs::{Ntfs, NtfsAttributeType};
use serde_json::{json, Value};
use std::collections::HashSet;

struct Case {
    ns: usize,
    cls: String,
    cover: i64,
    disk: Vec<usize>,
    ok: bool,
    raw: Value,
}

fn usn(base: (u16, u16), v: usize) -> u16 {
    // update sequence numbers skip zero
    let mut u = base.0;
    for _ in 0..v {
        u = u.wrapping_add(base.1);
        if u == 0 {
            u = 1;
        }
    }
    u
}

fn set_tails(b: &mut [u8], c: &Case, base: (u16, u16), v: usize, rng: &mut Rng) {
    for i in 0..c.ns {
        let t = match c.cls.as_str() {
            "own" => usn(base, v),
            "next" => usn(base, v + 1),
            _ => rng.next() as u16 & 0x7FFF,
        };
        w16(b, (i + 1) * 512 - 2, t);
    }
}

/// Puts the protection on: number `u`, array at `off` with entries for `cover` sectors.
fn protect_cover(b: &mut [u8], off: usize, u: u16, ns: usize, cover: i64) {
    w16(b, 4, off as u16);
    w16(b, 6, (cover + 1) as u16);
    w16(b, off, u);
    for i in 0..ns {
        let e = (i + 1) * 512 - 2;
        if (i as i64) < cover.max(0) {
            let t = r16(b, e);
            w16(b, off + 2 + 2 * i, t);
        }
        if (i as i64) < cover.max(0) {
            w16(b, e, u);
        }
    }
    if cover > ns as i64 {
        w16(b, off + 2 + 2 * ns, 0x1111);
    }
}

fn mix(vers: &[Vec<u8>], disk: &[usize]) -> Vec<u8> {
    let mut out = vec![];
    for (i, v) in disk.iter().enumerate() {
        out.extend_from_slice(&vers[*v][i * 512..(i + 1) * 512]);
    }
    out
}

fn file_record(c: &Case, rng: &mut Rng) -> Result<(), String> {
    let size = c.ns * 512;
    let base = (*rng.pick(&[0u16, 1, 5, 0x100, 0x7FFE, 0xFFFE, 0xFFFF, 0x1234]), *rng.pick(&[1u16, 0x100, 0x101]));
    let usa = 42 + 2 * rng.below(20) as usize;
    let first = al8(usa + 2 + 2 * (c.ns + 1));
    let vo = first + 24;
    // The record may be used up to its very end, or only in its first sectors.
    let end = if rng.chance(1, 2) { size } else { al8(vo + rng.below((size - vo) as u64 - 8) as usize) };
    let used = if end == size { size } else { end + 8 };
    let vlen = end - vo;
    let mut vers = vec![];
    let mut plain = vec![];
    for v in 0..4usize {
        let mut b = vec![0u8; size];
        b[0..4].copy_from_slice(b"FILE");
        w16(&mut b, 16, 1);
        w16(&mut b, 18, v as u16 + 1);
        w16(&mut b, 20, first as u16);
        w16(&mut b, 22, 1);
        w32(&mut b, 24, used as u32);
        w32(&mut b, 28, size as u32);
        w16(&mut b, 40, 9);
        // one attribute up to there
        w32(&mut b, first, T_DATA);
        w32(&mut b, first + 4, (end - first) as u32);
        w16(&mut b, first + 10, 24);
        w32(&mut b, first + 16, vlen as u32);
        w16(&mut b, first + 20, 24);
        for (i, x) in b[vo..].iter_mut().enumerate() {
            *x = (i * 7 + v * 101 + i / 512) as u8;
        }
        if end < size {
            w32(&mut b, end, u32::MAX);
        }
        set_tails(&mut b, c, base, v, rng);
        plain.push(b.clone());
        protect_cover(&mut b, usa, usn(base, v), c.ns, c.cover);
        vers.push(b);
    }
    let cs = *rng.pick(&[512u64, 1024, 4096]);
    let mut vol = Vol::new(cs, 512, size as u64, 1 << 14, vec![Run { lcn: Some(16), len: u64::max(1, 64 * size as u64 / cs) }]);
    vol.vary_sectors(rng);
    vol.put_mft_record();
    vol.put_raw(20, &mix(&vers, &c.disk));
    let mut fs = vol.disk.fork();
    let r = guard(|| -> Result<(u16, Vec<u8>), String> {
        let ntfs = Ntfs::new(&mut fs).map_err(|e| format!("!new: {}", ename(&e)))?;
        let f = ntfs.file(&mut fs, 20).map_err(|e| ename(&e))?;
        let a = f.attributes_raw().next().ok_or("!no attribute")?.map_err(|e| format!("!attribute: {}", ename(&e)))?;
        let v = match a.value(&mut fs) {
            Ok(ntfs::attribute_value::NtfsAttributeValue::Resident(v)) => v.data().to_vec(),
            o => return Err(format!("!value {:?}", o)),
        };
        Ok((f.hard_link_count(), v))
    })?;
    match r {
        Err(e) if e.starts_with('!') => Err(e),
        Err(_) if !c.ok => Ok(()),
        Err(e) => Err(format!("an intact file record is rejected: {}", e)),
        Ok(_) if !c.ok => Err("a file record that is not from one complete write is accepted".into()),
        Ok((links, data)) => {
            let v = c.disk[0];
            if links as usize != v + 1 || data != plain[v][vo..end] {
                let at = data.iter().zip(&plain[v][vo..end]).position(|(a, b)| a != b);
                return Err(format!("an accepted file record is not the written one (first difference at {:?}, links {})", at.map(|x| x + vo), links));
            }
            Ok(())
        }
    }
}

fn index_record_case(c: &Case, rng: &mut Rng) -> Result<(), String> {
    let size = c.ns * 512;
    let base = (*rng.pick(&[0u16, 1, 5, 0x100, 0x7FFD, 0xFFFE, 0xFFFF]), *rng.pick(&[1u16, 0x100, 0x101]));
    let mut vers = vec![];
    let mut want = vec![];
    let mut ends = vec![];
    let at = (rng.below(3) * size as u64).max(0);
    let cs = *rng.pick(&[512u64, 1024, 4096]);
    let unit = if cs > size as u64 { 512 } else { cs };
    // The entries start behind the array.
    let e0 = usize::max(64, al8(40 + 2 + 2 * (c.ns + 1)));
    // The entries may fill the record, or only its first sectors.
    let used = if rng.chance(1, 2) { c.ns } else { rng.below(c.ns as u64) as usize };
    for v in 0..4usize {
        let mut ents = vec![];
        for i in 0..used {
            let n = if i + 1 == c.ns { 171 - (e0 - 64) / 2 } else { 215 };
            let name: Vec<u16> = (0..n).map(|j| (0x30 + (i * 31 + j * 3 + v * 17) % 0x4000) as u16).collect();
            ents.push(Ent { fref: (100 * v + i) as u64 | 1 << 48, key: Fname::new(5, &name, 1).bytes(), sub: None, last: false });
        }
        ents.push(Ent { fref: 0, key: vec![], sub: Some(0x77), last: true });
        let mut b = vec![0u8; size];
        b[0..4].copy_from_slice(b"INDX");
        w64(&mut b, 16, at / unit);
        w32(&mut b, 24, (e0 - 24) as u32);
        let body: Vec<u8> = ents.iter().flat_map(|e| e.bytes()).collect();
        let end = e0 + body.len();
        assert!(used < c.ns || end == size);
        w32(&mut b, 28, (end - 24) as u32);
        w32(&mut b, 32, (size - 24) as u32);
        b[36] = 1;
        b[e0..end].copy_from_slice(&body);
        for (i, x) in b[end..].iter_mut().enumerate() {
            *x = (i * 5 + v * 31) as u8;
        }
        ends.push(end);
        set_tails(&mut b, c, base, v, rng);
        want.push(b.clone());
        protect_cover(&mut b, 40, usn(base, v), c.ns, c.cover);
        vers.push(b);
    }
    let mut vol = Vol::new(cs, 512, 1024, 1 << 15, vec![Run { lcn: Some(16), len: 64 * 1024 / cs }]);
    vol.vary_sectors(rng);
    vol.put_mft_record();
    let total = at + size as u64;
    vol.put(&Rec::dir(20).attr(nr_simple(T_IALLOC, &u16s("$I30"), 1, cs, &[Run { lcn: Some(300), len: (total + cs - 1) / cs }], total, total)));
    for o in (0..at).step_by(size) {
        let mut b = index_record_plain(size, (o / unit) as i64, &[Ent { fref: 0, key: vec![], sub: None, last: true }]);
        protect(&mut b, 40, 9);
        vol.disk.write(300 * cs + o, &b);
    }
    vol.disk.write(300 * cs + at, &mix(&vers, &c.disk));
    let mut fs = vol.disk.fork();
    let by_iter = rng.chance(1, 3);
    let r = guard(|| -> Result<Vec<u8>, String> {
        let ntfs = Ntfs::new(&mut fs).map_err(|e| format!("!new: {}", ename(&e)))?;
        let f = ntfs.file(&mut fs, 20).map_err(|e| format!("!file: {}", ename(&e)))?;
        let a = f.attributes_raw().filter_map(|a| a.ok()).find(|a| matches!(a.ty(), Ok(NtfsAttributeType::IndexAllocation))).ok_or("!attr")?;
        let ia = a.structured_value::<_, NtfsIndexAllocation>(&mut fs).map_err(|e| format!("!alloc: {}", ename(&e)))?;
        let rec = if by_iter {
            let mut it = ia.records(size as u32);
            for _ in 0..at as usize / size {
                it.next(&mut fs).ok_or("!end")?.map_err(|e| format!("!earlier record: {}", ename(&e)))?;
            }
            it.next(&mut fs).ok_or("!end")?.map_err(|e| ename(&e))?
        } else {
            ia.record_from_vcn(&mut fs, size as u32, Vcn::from((at / unit) as i64)).map_err(|e| ename(&e))?
        };
        // put together what the library shows of the record
        let mut out = vec![0u8; e0];
        for e in rec.entries::<NtfsFileNameIndex>().map_err(|e| format!("!entries: {}", ename(&e)))? {
            let e = e.map_err(|e| format!("!entry: {}", ename(&e)))?;
            let key = match e.key() {
                Some(k) => {
                    let k = k.map_err(|e| format!("!key: {}", ename(&e)))?;
                    let mut f = Fname::new(5, &[], 1);
                    f.parent = k.parent_directory_reference().file_record_number() | (k.parent_directory_reference().sequence_number() as u64) << 48;
                    let name: Vec<u16> = k.name().u16_iter().collect();
                    f.name = name;
                    f.alloc = k.allocated_size();
                    f.size = k.data_size();
                    f.times = [k.creation_time().nt_timestamp(), k.modification_time().nt_timestamp(), k.mft_record_modification_time().nt_timestamp(), k.access_time().nt_timestamp()];
                    f.bytes()
                }
                None => vec![],
            };
            let sub = match e.subnode_vcn() {
                Some(v) => Some(v.map_err(|e| format!("!vcn: {}", ename(&e)))?.value()),
                None => None,
            };
            let last = key.is_empty();
            let fref = if last { 0 } else { e.file_reference().file_record_number() | (e.file_reference().sequence_number() as u64) << 48 };
            out.extend(Ent { fref, key, sub, last }.bytes());
        }
        Ok(out)
    })?;
    match r {
        Err(e) if e.starts_with('!') => Err(e),
        Err(_) if !c.ok => Ok(()),
        Err(e) => Err(format!("an intact index record is rejected: {}", e)),
        Ok(_) if !c.ok => Err("an index record that is not from one complete write is accepted".into()),
        Ok(data) => {
            let v = c.disk[0];
            if data[e0..] != want[v][e0..ends[v]] {
                let at = data[e0..].iter().zip(&want[v][e0..ends[v]]).position(|(a, b)| a != b);
                return Err(format!("an accepted index record is not the written one (first difference at {:?})", at.map(|x| x + e0)));
            }
            Ok(())
        }
    }
}

pub fn replay(path: &str, out: &str, seed: u64) {
    let mut seen = HashSet::new();
    let mut cases = vec![];
    for v in read_ndjson(path) {
        if seen.insert(v.to_string()) {
            cases.push(Case {
                ns: ji(&v["ns"]) as usize,
                cls: js(&v["cls"]).into(),
                cover: ji(&v["cover"]),
                disk: ja(&v["disk"]).iter().map(|x| ji(x) as usize).collect(),
                ok: jb(&v["ok"]),
                raw: v,
            });
        }
    }
    let rep = parallel(&cases, |i, c, rep| {
        let mut rng = Rng::new(seed ^ (i as u64) << 8);
        rep.add("cases", 1);
        rep.add(if c.ok { "intact" } else { "torn_or_unprotected" }, 1);
        if c.ns > 1 && c.ns <= 8 {
            rep.add("file_records", 1);
            if let Err(m) = file_record(c, &mut rng) {
                rep.violation("torn-file-record", json!({"message": m, "case": c.raw}));
            }
        }
        rep.add("index_records", 1);
        if let Err(m) = index_record_case(c, &mut rng) {
            rep.violation("torn-index-record", json!({"message": m, "case": c.raw}));
        }
        // intact records with other numbers and placements of the array
        for _ in 0..if !c.ok { 0 } else if c.ns > 8 { 2 } else { 60 } {
            rep.add("intact_variants", 2);
            if c.ns > 1 && c.ns <= 8 {
                if let Err(m) = file_record(c, &mut rng) {
                    rep.violation("torn-file-record", json!({"message": m, "case": c.raw}));
                }
            }
            if let Err(m) = index_record_case(c, &mut rng) {
                rep.violation("torn-index-record", json!({"message": m, "case": c.raw}));
            }
        }
        if i % 5003 == 7 {
            rep.sample(3, || c.raw.clone());
        }
    });
    rep.write(out);
}
