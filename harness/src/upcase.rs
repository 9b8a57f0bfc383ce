//! Comparison of names with the table stored on the volume (Upcase.tla, C11).
use crate::disk::Disk;
use crate::img::*;
use crate::util::*;
use ntfs::{Ntfs, UpcaseOrd};
use nt_string::u16strle::U16StrLe;
use serde_json::{json, Value};
use std::cmp::Ordering;

fn ord(o: Ordering) -> i64 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}

/// All answers the library gives for a pair, and whether each was asked with the operands reversed.
fn answers(ntfs: &Ntfs, x: &[u16], y: &[u16]) -> (Vec<i64>, Vec<bool>) {
    let (bx, by) = (u16bytes(x), u16bytes(y));
    let (ux, uy) = (U16StrLe(&bx), U16StrLe(&by));
    let mut v = vec![ord(ux.upcase_cmp(ntfs, &uy)), ord(uy.upcase_cmp(ntfs, &ux))];
    let mut r = vec![false, true];
    if let Ok(sy) = String::from_utf16(y) {
        v.push(ord(ux.upcase_cmp(ntfs, &sy.as_str())));
        v.push(ord(sy.as_str().upcase_cmp(ntfs, &ux)));
        r.extend([false, true]);
    }
    if let Ok(sx) = String::from_utf16(x) {
        v.push(ord(sx.as_str().upcase_cmp(ntfs, &uy)));
        v.push(ord(uy.upcase_cmp(ntfs, &sx.as_str())));
        r.extend([false, true]);
    }
    (v, r)
}

/// A volume with the given table, stored in one of several ways.
fn volume(table: &[u16], rng: &mut Rng) -> (Disk, Value) {
    let cs = *rng.pick(&[512u64, 4096]);
    let frs = 1024;
    let mut v = Vol::new(cs, 512, frs, 1 << 14, vec![Run { lcn: Some(16), len: 64 * frs / cs }]);
    v.vary_sectors(rng);
    v.put_mft_record();
    let b = u16bytes(table);
    let total = b.len() as u64 / cs;
    let n = rng.range(1, 5);
    let mut left = total;
    let mut runs = vec![];
    for i in 0..n {
        let k = if i == n - 1 { left } else { rng.range(1, left / 2) };
        runs.push(k);
        left -= k;
    }
    let mut order: Vec<usize> = (0..runs.len()).collect();
    rng.shuffle(&mut order);
    let mut at = 16 + 64 * frs / cs + 1;
    let mut place = vec![Run { lcn: None, len: 0 }; runs.len()];
    for i in order {
        place[i] = Run { lcn: Some(at), len: runs[i] };
        at += runs[i] + rng.below(3);
    }
    let mut off = 0usize;
    for r in &place {
        let l = (r.len * cs) as usize;
        v.disk.write(r.lcn.unwrap() * cs, &b[off..off + l]);
        off += l;
    }
    let up = Rec::new(10)
        .attr(attr_resident(T_DATA, &u16s("Info"), 1, 0, &[9u8; 32]))
        .attr(nr_simple(T_DATA, &[], 0, cs, &place, b.len() as u64, b.len() as u64));
    v.put(&up);
    (v.disk, json!({"cluster": cs, "runs": format!("{:?}", place)}))
}

/// Real code units standing for the symbols of the specification, in an order of their own.
fn symbols(n: usize, style: u64, rng: &mut Rng) -> Vec<u16> {
    match style {
        0 => (0..n as u16).map(|i| 0x61 + i).collect(),
        1 => vec![0xD83D, 0xDE00, 0x0000, 0xFFFF][..n].to_vec(),
        2 => vec![0xFFFF, 0x0000, 0x8000, 0x7FFF][..n].to_vec(),
        3 => vec![0x00FF, 0xFF00, 0x0100, 0x0001][..n].to_vec(),
        _ => {
            let mut v: Vec<u16> = vec![];
            while v.len() < n {
                let c = rng.below(65536) as u16;
                if !v.contains(&c) {
                    v.push(c);
                }
            }
            v
        }
    }
}
fn values(n: usize, style: u64, rng: &mut Rng) -> Vec<u16> {
    match style {
        0 => (0..n as u16).map(|i| 0x41 + i).collect(),
        1 => vec![0x0000, 0x00FF, 0x0100, 0xFFFF][..n].to_vec(),
        2 => vec![0x7FFF, 0x8000, 0xD800, 0xE000][..n].to_vec(),
        _ => {
            let mut v: Vec<u16> = vec![];
            while v.len() < n {
                let c = rng.below(65536) as u16;
                if !v.contains(&c) {
                    v.push(c);
                }
            }
            v.sort();
            v
        }
    }
}
fn noise(rng: &mut Rng) -> Vec<u16> {
    match rng.below(3) {
        0 => ascii_upcase(),
        1 => (0..65536).map(|_| rng.below(65536) as u16).collect(),
        _ => {
            let mut v: Vec<u16> = (0..=65535).collect();
            rng.shuffle(&mut v);
            v
        }
    }
}

pub fn replay(path: &str, out: &str, seed: u64, rounds: u64) {
    let cases = read_ndjson(path);
    let rep = parallel(&cases, |ci, c, rep| {
        let fold: Vec<usize> = ja(&c["fold"]).iter().map(|x| ji(x) as usize - 1).collect();
        let names: Vec<Vec<usize>> = ja(&c["names"]).iter().map(|s| ja(s).iter().map(|x| ji(x) as usize - 1).collect()).collect();
        for round in 0..rounds {
            let mut rng = Rng::new(seed ^ (ci as u64) << 12 ^ round << 48);
            let sy = symbols(fold.len(), round % 5, &mut rng);
            let va = values(fold.len(), (round / 2 + ci as u64) % 4, &mut rng);
            let mut table = noise(&mut rng);
            for (s, f) in sy.iter().zip(&fold) {
                table[*s as usize] = va[*f];
            }
            let (mut fs, desc) = volume(&table, &mut rng);
            let r = guard(|| -> Result<(), String> {
                let mut ntfs = Ntfs::new(&mut fs).map_err(|e| ename(&e))?;
                ntfs.read_upcase_table(&mut fs).map_err(|e| format!("table: {}", ename(&e)))?;
                let real: Vec<Vec<u16>> = names.iter().map(|n| n.iter().map(|s| sy[*s]).collect()).collect();
                for (xi, row) in ja(&c["cmp"]).iter().enumerate() {
                    for (yi, want) in ja(row).iter().enumerate() {
                        let want = ji(want);
                        let (a, r) = answers(&ntfs, &real[xi], &real[yi]);
                        for (a, r) in a.iter().zip(&r) {
                            if *a != if *r { -want } else { want } {
                                return Err(format!("{:04x?} and {:04x?} compare as {} (reversed: {}), expected {}", real[xi], real[yi], a, r, want));
                            }
                        }
                        rep.add("comparisons", a.len() as u64);
                        rep.add("pairs", 1);
                    }
                }
                Ok(())
            });
            if let Ok(Err(m)) | Err(m) = r {
                rep.violation("upcase", json!({"message": m, "fold": c["fold"], "symbols": sy, "values": va, "volume": desc}));
            }
            rep.add("tables", 1);
        }
        if ci % 9 == 1 {
            rep.sample(3, || json!({"fold": c["fold"], "names": ja(&c["names"]).len()}));
        }
    });
    rep.write(out);
}

/// Long names under arbitrary tables, every table entry at least once; tables of a wrong size are errors.
pub fn record(trace: &str, out: &str, seed: u64, n: u64) {
    let mut rep = Report::default();
    let mut w = NdWriter::create(trace);
    for t in 0..n {
        let mut rng = Rng::new(seed ^ t << 20 ^ 0xC11);
        let table = noise(&mut rng);
        let (mut fs, desc) = volume(&table, &mut rng);
        let r = guard(|| -> Result<Vec<Value>, String> {
            let mut ntfs = Ntfs::new(&mut fs).map_err(|e| ename(&e))?;
            ntfs.read_upcase_table(&mut fs).map_err(|e| format!("table: {}", ename(&e)))?;
            // every single unit against another one
            let mut prev = 0u16;
            for c in (0..=65535u16).rev() {
                let want = ord(table[c as usize].cmp(&table[prev as usize]));
                let (a, r) = answers(&ntfs, &[c], &[prev]);
                if a.iter().zip(&r).any(|(a, r)| *a != if *r { -want } else { want }) {
                    return Err(format!("units {:04x} and {:04x} compare as {:?}, expected {}", c, prev, a, want));
                }
                prev = if rng.chance(1, 2) { c } else { rng.below(65536) as u16 };
            }
            let mut ev = vec![];
            for _ in 0..40 {
                let len = *rng.pick(&[1u64, 3, 12, 60, 255, 600]) as usize;
                // (longer than any name of a file as well)
                let len = rng.range(if len == 600 { 250 } else { 1 }, len as u64) as usize;
                let plain = rng.chance(1, 2);
                let mut x: Vec<u16> = vec![];
                while x.len() < len {
                    let c = if plain { rng.range(32, 126) as u16 } else { rng.below(65536) as u16 };
                    if rng.chance(1, 20) {
                        x.extend([0xD83D, 0xDE00]);
                    } else if rng.chance(1, 30) || !(0xD800..0xE000).contains(&c) {
                        x.push(c);
                    }
                }
                let mut y = x.clone();
                for k in 0..y.len() {
                    // another unit that is folded to the same value, if there is one
                    if rng.chance(1, 3) {
                        if let Some(o) = table.iter().enumerate().position(|(i, v)| *v == table[y[k] as usize] && i as u16 != y[k] && !(0xD800..0xE000).contains(&(i as u16))) {
                            y[k] = o as u16;
                        }
                    }
                }
                match rng.below(4) {
                    0 => y.truncate(rng.below(y.len() as u64 + 1) as usize),
                    1 => y.push(rng.range(32, 126) as u16),
                    2 => {
                        let k = rng.below(y.len() as u64) as usize;
                        y[k] = rng.range(32, 126) as u16;
                    }
                    _ => {}
                }
                let mut us: Vec<u16> = x.iter().chain(&y).copied().collect();
                us.sort();
                us.dedup();
                let tab: Vec<Value> = us.iter().map(|u| json!([u, table[*u as usize]])).collect();
                let (res, rev) = answers(&ntfs, &x, &y);
                ev.push(json!({"x": x, "y": y, "tab": tab, "res": res, "rev": rev}));
            }
            Ok(ev)
        });
        match r {
            Ok(Ok(ev)) => {
                rep.add("traces", 1);
                rep.add("events", ev.len() as u64);
                rep.add("units", 65536);
                w.put(&json!({"ev": ev, "volume": desc}));
            }
            Ok(Err(m)) | Err(m) => rep.violation("upcase-record", json!({"message": m, "volume": desc})),
        }
        // a table of another size, or one whose clusters end before its size
        for bad in [*rng.pick(&[131070u64, 131074, 0, 2, 65536, 262144]), 131072] {
            let cs = 512;
            let mut v = Vol::small();
            v.put_mft_record();
            let k = if bad == 131072 { *rng.pick(&[0u64, 1, 128, 200, 255]) } else { (bad + cs - 1) / cs };
            let runs = if k == 0 { vec![] } else { vec![Run { lcn: Some(300), len: k }] };
            v.put(&Rec::new(10).attr(nr_simple(T_DATA, &[], 0, cs, &runs, bad, bad)));
            let mut fs = v.disk;
            let r = guard(|| {
                let mut ntfs = Ntfs::new(&mut fs).unwrap();
                ntfs.read_upcase_table(&mut fs).is_err()
            });
            if r != Ok(true) {
                rep.violation("upcase-size", json!({"message": format!("a table of {} bytes in {} clusters is accepted: {:?}", bad, k, r)}));
            }
            rep.add("sizes", 1);
        }
    }
    rep.write(out);
}
