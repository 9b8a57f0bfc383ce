//! Indexes whose nodes refer to anything (IndexGraph.tla, C14).
use crate::damage::Watch;
use crate::img::*;
use crate::util::*;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::Ntfs;
use serde_json::{json, Value};
use std::cmp::Ordering;

const IRS: usize = 1024;

fn name(k: usize) -> String {
    format!("K{:03}", k)
}

/// Entries of node n (0 is the root). In front of every subnode stand `chain` nodes that hold nothing but a reference to the next.
fn entries(nodes: &[Value], n: usize, unit: i64, chain: i64, dangling: i64) -> Vec<Ent> {
    let v = ja(&nodes[n]);
    let count = nodes.len() as i64;
    v.iter()
        .enumerate()
        .map(|(i, s)| {
            let s = ji(s);
            let sub = match s {
                0 => None,
                s if s < count => Some((s - 1) * (chain + 1) * unit),
                _ => Some(dangling),
            };
            let last = i + 1 == v.len();
            let key = if last { vec![] } else { Fname::new(5, &u16s(&name(10 * (n + 1) + i + 1)), 1).bytes() };
            Ent { fref: if last { 0 } else { 100 + 10 * (n as u64 + 1) + i as u64 | 1 << 48 }, key, sub, last }
        })
        .collect()
}

fn one(case: &Value, rng: &mut Rng) -> Result<(u64, u64), String> {
    let nodes = ja(&case["nodes"]);
    let out: Vec<usize> = ja(&case["out"]).iter().map(|x| ji(x) as usize).collect();
    let bad = ji(&case["bad"]);
    let keys: u64 = nodes.iter().map(|n| ja(n).len() as u64 - 1).sum();
    let chain = if rng.chance(1, 12) { *rng.pick(&[1i64, 15, 70, 140, 300]) } else { 0 };
    let cs = *rng.pick(&[512u64, 1024, 2048]);
    let mut vol = Vol::new(cs, 512, 1024, 8000, vec![Run { lcn: Some(40), len: 64 * 1024 / cs }]);
    vol.vary_sectors(rng);
    vol.put_mft_record();
    let up = 6000u64;
    vol.put_upcase(up, &ascii_upcase());
    let unit = if cs <= IRS as u64 { IRS as u64 / cs } else { IRS as u64 / 512 } as i64;
    let n = (nodes.len() - 1) * (chain as usize + 1);
    let clusters = ((n * IRS) as u64 + 2 * IRS as u64 + cs - 1) / cs;
    let size = ((n + 1) * IRS) as u64;
    // a number where no node is: behind the value, before it, far away, inside of another node, and where a record of another number lies
    let dangling = *rng.pick(&[n as i64 * unit, (n as i64 + 1) * unit, (n as i64 + 1) * unit + 1, -1, -unit, i64::MIN, i64::MAX, 1 << 54, i64::MAX / 512]);
    for i in 1..=n {
        let es = if i % (chain as usize + 1) == 0 { entries(nodes, i / (chain as usize + 1), unit, chain, dangling) }
            else { vec![Ent { fref: 0, key: vec![], sub: Some(i as i64 * unit), last: true }] };
        let b = index_record(IRS, (i as i64 - 1) * unit, &es, 3 + i as u16);
        vol.disk.write(1500 * cs + ((i - 1) * IRS) as u64, &b);
    }
    let stray = index_record(IRS, *rng.pick(&[0, -1, n as i64 * unit + 1]), &[Ent { fref: 0, key: vec![], sub: None, last: true }], 9);
    vol.disk.write(1500 * cs + (n * IRS) as u64, &stray);
    let root = index_root_value(IRS as u32, 1, &entries(nodes, 0, unit, chain, dangling), true);
    vol.put(
        &Rec::dir(24)
            .attr(attr_resident(T_IROOT, &u16s("$I30"), 0, 0, &root))
            .attr(nr_simple(T_IALLOC, &u16s("$I30"), 1, cs, &[Run { lcn: Some(1500), len: clusters }], size, size)),
    );
    let fs = &mut vol.disk;
    let e = |x: ntfs::NtfsError| ename(&x);
    let mut ntfs = Ntfs::new(fs).map_err(e)?;
    ntfs.read_upcase_table(fs).map_err(e)?;
    let file = ntfs.file(fs, 24).map_err(e)?;
    let index = file.directory_index(fs).map_err(e)?;
    let mut it = index.entries();
    fs.accesses = 0;
    fs.budget = 400 * (n as u64 + 2) * 4;
    let mut got = vec![];
    let mut failed = false;
    // every entry can fail at most once, then come items or the end
    let limit = keys + 4 * (n as u64 + 1) + 8;
    for step in 0.. {
        if step > limit {
            return Err(format!("still going on after {} calls for {} keys in {} nodes: {:?}", step, keys, n + 1, got));
        }
        match it.next(fs) {
            None => break,
            // an I/O error (a place that does not exist) may be temporary and comes again; others leave their entry behind
            Some(Err(ntfs::NtfsError::Io(_))) => {
                failed = true;
                break;
            }
            Some(Err(_)) => failed = true,
            Some(Ok(x)) => got.push(x.file_reference().file_record_number() as usize - 99),
        }
    }
    if got.len() as u64 > keys {
        return Err(format!("{} items of {} keys: {:?}", got.len(), keys, got));
    }
    if bad == 0 && (failed || got != out) {
        return Err(format!("a tree iterated as {:?}{} instead of {:?}", got, if failed { " with an error" } else { "" }, out));
    }
    if (1..got.len()).any(|i| got[..i].contains(&got[i])) {
        return Err(format!("an entry was delivered twice: {:?}", got));
    }
    let mut finder = index.finder();
    let mut n_find = 0;
    for k in 0..6 {
        fs.accesses = 0;
        let nm = if k < 3 { name(10 * rng.range(1, nodes.len() as u64) as usize + rng.range(0, 2) as usize) } else { ["", "Z", "K"][k - 3].to_string() };
        match NtfsFileNameIndex::find(&mut finder, &ntfs, fs, &nm) {
            Some(Ok(x)) if x.key().map(|k| k.map(|k| k.name().to_string_lossy()).ok()) != Some(Some(nm.clone())) => {
                return Err(format!("search for {} found another entry", nm))
            }
            _ => n_find += 1,
        }
    }
    for o in [Ordering::Less, Ordering::Greater] {
        fs.accesses = 0;
        let _ = finder.find(fs, |_| o).map(|r| r.is_ok());
        n_find += 1;
    }
    Ok((got.len() as u64, n_find))
}

pub fn replay(input: &str, out: &str, seed: u64) {
    let cases = read_ndjson(input);
    let watch = Watch::start(out);
    let rep = parallel(&cases, |i, c, rep| {
        let mut rng = Rng::new(seed ^ (i as u64) << 20);
        rep.sample(3, || c.clone());
        rep.add("indexes", 1);
        if ji(&c["bad"]) > 0 {
            rep.add("indexes that are no trees", 1);
        }
        match watch.during(i, || c.to_string(), || guard(|| one(c, &mut rng))) {
            Ok(Ok((a, b))) => {
                rep.add("entries", a);
                rep.add("searches", b);
            }
            Ok(Err(m)) | Err(m) => rep.violation("index graph", json!({"message": m, "case": c})),
        }
    });
    rep.write(out);
}
