//! References to index nodes (Vcn.tla, C12).
use crate::img::*;
use crate::util::*;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::NtfsIndexAllocation;
use ntfs::types::Vcn;
use ntfs::{Ntfs, NtfsAttributeType};
use serde_json::{json, Value};

fn shapes(u: u64) -> Vec<(u64, u64)> {
    match u {
        1 => vec![(1024, 1024), (4096, 4096), (2048, 2048), (4096, 512), (512, 512), (8192, 8192), (65536, 65536)],
        2 => vec![(512, 1024), (1024, 2048), (2048, 4096), (4096, 1024), (65536, 1024), (8192, 16384), (32768, 65536)],
        4 => vec![(512, 2048), (1024, 4096), (4096, 2048), (16384, 2048), (16384, 65536)],
        8 => vec![(512, 4096), (8192, 4096), (65536, 4096), (8192, 65536)],
        _ => panic!("units"),
    }
}

fn key(at: u64) -> Vec<u8> {
    Fname::new(5, &u16s(&format!("n{}", at)), 1).bytes()
}

struct Case {
    vol: Vol,
    cs: u64,
    irs: u64,
    unit: u64,
    blocks: Vec<u64>,
    root: u64,
    alloc: Option<Vec<u8>>,
}

impl Case {
    fn set_root(&mut self, sub: i64) {
        let i30 = u16s("$I30");
        let mut root = Rec::dir(self.root);
        let large = self.alloc.is_some();
        let cpir = if self.cs > self.irs { self.irs / 512 } else { self.irs / self.cs } as i8;
        let e = [Ent { fref: 0, key: vec![], sub: Some(sub), last: true }];
        root.attrs.push(attr_resident(T_IROOT, &i30, 2, 0, &index_root_value(self.irs as u32, cpir, &e, large)));
        if let Some(a) = &self.alloc {
            root.attrs.push(a.clone());
        }
        self.vol.put(&root);
    }
    fn put(&mut self, at: u64, bytes: &[u8]) {
        for (j, c) in bytes.chunks(512).enumerate() {
            let p = self.blocks[(at * self.unit / 512) as usize + j];
            self.vol.disk.write(p, c);
        }
    }
}

/// The number stated: 1000 + n stands for n + 2^32, 2000 + n for n + 2^63.
fn stated(v: &Value) -> i64 {
    match ji(v) {
        n if n >= 2000 => (n - 2000) | i64::MIN,
        n if n >= 1000 => n - 1000 + (1 << 32),
        n => n,
    }
}

/// `inner`: the node has a subnode behind its last key.
fn record(irs: u64, at: u64, says: i64, inner: bool) -> Vec<u8> {
    index_record(
        irs as usize,
        says,
        &[Ent { fref: (200 + at) | 3 << 48, key: key(at), sub: None, last: false }, Ent { fref: 0, key: vec![], sub: inner.then_some(at as i64 ^ 1), last: true }],
        7 + at as u16,
    )
}

fn build(c: &Value, rng: &mut Rng) -> Case {
    let u = ji(&c["u"]) as u64;
    let w = ji(&c["w"]) as u64;
    let (cs, irs) = *rng.pick(&shapes(u));
    let unit = if cs > irs { 512 } else { cs };
    let frs = 1024;
    let mut vol = Vol::new(cs, 512, frs, 1 << 12, vec![Run { lcn: Some(16), len: (64 * frs / cs).max(1) }]);
    vol.vary_sectors(rng);
    vol.put_mft_record();
    let total = (w * unit + cs - 1) / cs;
    // fragments, out of order
    let mut lcns: Vec<u64> = vec![];
    let mut runs: Vec<Run> = vec![];
    let mut left = total;
    while left > 0 {
        let k = rng.range(1, left);
        runs.push(Run { lcn: None, len: k });
        lcns.push(0);
        left -= k;
    }
    let mut order: Vec<usize> = (0..runs.len()).collect();
    rng.shuffle(&mut order);
    let mut lcn = 16 + (64 * frs / cs).max(1) + 1;
    for i in order {
        runs[i].lcn = Some(lcn);
        lcn += runs[i].len + rng.below(2);
    }
    let mut blocks = vec![];
    for r in &runs {
        for b in 0..r.len * cs / 512 {
            blocks.push(r.lcn.unwrap() * cs + b * 512);
        }
    }
    let size = ji(&c["size"]) as u64 * (unit / 2);
    let alloc = jb(&c["alloc"]).then(|| nr_simple(T_IALLOC, &u16s("$I30"), 3, cs, &runs, size, size));
    let mut k = Case { vol, cs, irs, unit, blocks, root: 24 + rng.below(10), alloc };
    // what is no record may look like something
    match rng.below(3) {
        0 => {}
        1 => {
            // torn records everywhere
            for at in 0..w - u + 1 {
                let mut b = record(irs, at, at as i64, rng.chance(1, 2));
                let e = b.len() - 2;
                b[e] ^= 0x55;
                k.put(at, &b);
            }
        }
        _ => {
            for at in 0..w {
                k.put(at, &vec![0u8; unit as usize]);
            }
        }
    }
    for r in ja(&c["recs"]) {
        let at = ji(&r["at"]) as u64;
        let b = record(irs, at, stated(&r["says"]), rng.chance(1, 2));
        k.put(at, &b);
    }
    k
}

fn node(r: &ntfs::NtfsIndexRecord) -> Result<u64, String> {
    let mut es = r.entries::<NtfsFileNameIndex>().map_err(|e| ename(&e))?;
    let e = es.next().ok_or("no entry")?.map_err(|e| ename(&e))?;
    Ok(e.file_reference().file_record_number().wrapping_sub(200))
}

fn run(c: &Value, k: &mut Case, rng: &mut Rng, rep: &mut Report) -> Result<(), String> {
    let u = ji(&c["u"]) as u64;
    let good: Vec<bool> = ja(&c["good"]).iter().map(jb).collect();
    // reference, expected node, number to be stated by the first record
    let mut asks: Vec<(i64, Option<u64>, bool)> = good.iter().enumerate().map(|(i, g)| (i as i64 - 2, g.then(|| (i as u64).wrapping_sub(2)), false)).collect();
    let first = ja(&c["recs"]).first().map(|r| ji(&r["at"]));
    for f in ja(&c["far"]) {
        let at = first.unwrap_or(0);
        let p = (1u128 << 64) / k.unit as u128;
        let v = match js(f) {
            "min" => i64::MIN,
            "max" => i64::MAX,
            "overflow" => i64::MAX / k.unit as i64 + 1 + at,
            "overflow-1" => i64::MAX / k.unit as i64,
            "wrap" => (p as i64).wrapping_add(at),
            "neg-wrap" => at - p as i64,
            "half" => i64::MIN / k.unit as i64,
            x => panic!("far {}", x),
        };
        asks.push((v, None, true));
    }
    rng.shuffle(&mut asks);
    for (v, want, far) in asks {
        if far {
            if let Some(at) = first {
                let b = record(k.irs, at as u64, v, rng.chance(1, 2));
                k.put(at as u64, &b);
            }
        }
        let via = rng.below(3);
        k.set_root(v);
        let mut fs = k.vol.disk.fork();
        fs.budget = 100_000;
        let got: Result<u64, String> = (|| {
            let ntfs = Ntfs::new(&mut fs).map_err(|e| panic!("boot: {:?}", e)).unwrap();
            let file = ntfs.file(&mut fs, k.root).map_err(|e| panic!("file: {:?}", e)).unwrap();
            if via == 0 && k.alloc.is_some() {
                let a = file.attributes_raw().filter_map(|a| a.ok()).find(|a| a.ty().ok() == Some(NtfsAttributeType::IndexAllocation)).expect("allocation");
                let al = a.structured_value::<_, NtfsIndexAllocation>(&mut fs).map_err(|e| format!("alloc {}", ename(&e)))?;
                let r = al.record_from_vcn(&mut fs, k.irs as u32, Vcn::from(v)).map_err(|e| ename(&e))?;
                if r.vcn().value() != v {
                    panic!("record_from_vcn({}) returned a record stating {}", v, r.vcn().value());
                }
                node(&r)
            } else {
                let index = file.directory_index(&mut fs).map_err(|e| ename(&e))?;
                if via == 1 {
                    let mut f = index.finder();
                    let e = f.find(&mut fs, |_| std::cmp::Ordering::Equal).ok_or("search found nothing")?.map_err(|e| ename(&e))?;
                    Ok(e.file_reference().file_record_number().wrapping_sub(200))
                } else {
                    let mut it = index.entries();
                    let e = it.next(&mut fs).ok_or("iteration ended")?.map_err(|e| ename(&e))?;
                    Ok(e.file_reference().file_record_number().wrapping_sub(200))
                }
            }
        })();
        rep.add("references", 1);
        match (&got, want) {
            (Ok(g), Some(w)) if *g == w => rep.add("followed", 1),
            (Err(m), None) if !m.contains(' ') => rep.add("rejected", 1),
            _ => return Err(format!("reference {} (route {}) gives {:?}, expected {:?}", v, via, got, want)),
        }
        if far {
            if let Some(r) = ja(&c["recs"]).first() {
                let b = record(k.irs, first.unwrap() as u64, stated(&r["says"]), rng.chance(1, 2));
                k.put(first.unwrap() as u64, &b);
            }
        }
    }
    if k.alloc.is_some() {
        k.set_root(0);
        let mut fs = k.vol.disk.fork();
        fs.budget = 100_000;
        let ntfs = Ntfs::new(&mut fs).map_err(|e| ename(&e))?;
        let file = ntfs.file(&mut fs, k.root).map_err(|e| ename(&e))?;
        let a = file.attributes_raw().filter_map(|a| a.ok()).find(|a| a.ty().ok() == Some(NtfsAttributeType::IndexAllocation)).expect("allocation");
        let al = a.structured_value::<_, NtfsIndexAllocation>(&mut fs).map_err(|e| ename(&e))?;
        let list: Vec<u64> = ja(&c["list"]).iter().map(|x| ji(x) as u64).collect();
        let mut recs = al.records(k.irs as u32);
        let mut other = recs.clone();
        let attached = rng.chance(1, 2);
        let mut got = vec![];
        let mut clean = true;
        loop {
            let r = if attached { other = recs.clone(); recs.clone().attach(&mut fs).next() } else { recs.next(&mut fs) };
            match r {
                None => break,
                Some(Ok(r)) => got.push(node(&r)?),
                Some(Err(_)) => {
                    clean = false;
                    break;
                }
            }
            if attached {
                let _ = recs.next(&mut fs);
            }
            if got.len() > 60 {
                return Err("records() does not end".into());
            }
        }
        let _ = &mut other;
        if got != list || clean != jb(&c["clean"]) {
            return Err(format!("all records: {:?} then {}, expected {:?} then {}", got, if clean { "end" } else { "error" }, list, if jb(&c["clean"]) { "end" } else { "error" }));
        }
        if clean && (recs.next(&mut fs).is_some() || recs.next(&mut fs).is_some()) {
            return Err("records() goes on after its end".into());
        }
        rep.add("listings", 1);
        rep.add("listed", list.len() as u64);
        let _ = u;
    }
    Ok(())
}

pub fn replay(path: &str, out: &str, seed: u64, rounds: u64) {
    let cases = read_ndjson(path);
    let rep = parallel(&cases, |ci, c, rep| {
        for round in 0..rounds {
            let mut rng = Rng::new(seed ^ (ci as u64) << 12 ^ round << 48);
            let mut k = build(c, &mut rng);
            let d = json!({"cluster": k.cs, "record": k.irs});
            let r = guard(|| run(c, &mut k, &mut rng, rep));
            if let Ok(Err(m)) | Err(m) = r {
                rep.violation("vcn", json!({"message": m, "case": c, "volume": d}));
            }
            rep.add("allocations", 1);
        }
        if ci % 1000 == 7 {
            rep.sample(3, || c.clone());
        }
    });
    rep.write(out);
}
