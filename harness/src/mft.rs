//! Lookup of file records through a fragmented table (Mft.tla, C06).
use crate::img::*;
use crate::util::*;
use ntfs::Ntfs;
use serde_json::json;

fn record_bytes(n: u64, frs: usize, decoy: bool) -> Vec<u8> {
    let mut r = Rec::new(n);
    r.links = if decoy { 999 } else { (n as u16).wrapping_add(1) };
    let mut val = vec![];
    while val.len() + 16 <= frs - 200 {
        val.extend_from_slice(&n.to_le_bytes());
        val.extend_from_slice(&(if decoy { 0xDDDDu64 } else { val.len() as u64 }).to_le_bytes());
    }
    r.attr(attr_resident(T_DATA, &[], 1, 0, &val)).bytes(frs)
}

pub fn replay(path: &str, out: &str, seed: u64, rounds: u64) {
    let cases = read_ndjson(path);
    let rep = parallel(&cases, |ci, c, rep| {
        for round in 0..rounds {
            let mut rng = Rng::new(seed ^ (ci as u64) << 12 ^ round << 48);
            let (ru, cu) = (ji(&c["ru"]) as u64, ji(&c["cu"]) as u64);
            let (frs, cs) = (ru * 512, cu * 512);
            let mut lens: Vec<(u64, bool)> = ja(&c["runs"]).iter().map(|r| (ji(&r["len"]) as u64, jb(&r["hole"]))).collect();
            // A hole may be very long: the numbers of all records behind its start are then so much greater.
            let (mut shift, mut from) = (0u64, u64::MAX);
            if let Some(h) = lens.iter().position(|l| l.1).filter(|h| round + 1 == rounds && ji(&c["size"]) as u64 > lens[..*h].iter().map(|l| l.0 * cu).sum()) {
                from = lens[..h].iter().map(|l| l.0 * cu).sum();
                let unit = lens[h].0 * cu;
                let m = match rng.below(4) {
                    0 => rng.range(1, 300),
                    1 => (1 << 32) / unit + rng.below(3),
                    2 => (1 << 31) / unit,
                    _ => (1 << 32) / unit * rng.range(2, 9),
                };
                shift = m * unit;
                lens[h].0 *= 1 + m * ru;
            }
            let number = |n: u64| if n * ru >= from { n + shift } else { n };
            // physical placement
            let mut slots: Vec<usize> = (0..lens.len()).collect();
            let style = rng.below(4);
            match style {
                0 => {}
                1 => slots.reverse(),
                _ => rng.shuffle(&mut slots),
            }
            let gap_clusters = if style == 3 { 0 } else { (ru + cu - 1) / cu + rng.below(5) };
            let mut lcn = vec![0u64; lens.len()];
            let mut at = 8 + rng.below(100);
            for s in slots {
                lcn[s] = at;
                at += if lens[s].1 { 1 } else { lens[s].0 } + gap_clusters;
            }
            let runs: Vec<Run> = lens.iter().zip(&lcn).map(|(l, p)| Run { lcn: if l.1 { None } else { Some(*p) }, len: l.0 }).collect();
            let mut vol = Vol::new(cs, 512, frs, 1 << 14, runs.clone());
            vol.vary_sectors(&mut rng);
            vol.mft_size = (ji(&c["size"]) as u64 + shift * ru) * 512;
            let init = ji(&c["init"]) as u64;
            vol.mft_init = Some((if init > from { init + shift * ru } else { init }) * 512);
            // decoys first: what somebody would find who reads on behind a fragment
            let total: u64 = lens.iter().map(|l| l.0 * cu).sum();
            let mut start = 0u64;
            for (i, l) in lens.iter().enumerate() {
                let end = start + l.0 * cu;
                let n = (end - 1) / ru;
                let rest = (n + 1) * ru - end;
                if !l.1 && rest > 0 && gap_clusters > 0 {
                    let d = record_bytes(n, frs as usize, true);
                    vol.disk.write((lcn[i] + l.0) * cs, &d[((ru - rest) * 512) as usize..]);
                } else if !l.1 && gap_clusters > 0 {
                    vol.disk.write((lcn[i] + l.0) * cs, &record_bytes(n + 1, frs as usize, true));
                }
                start = end;
            }
            for n in 1..(total - shift * ru + ru - 1) / ru {
                let n = number(n);
                let b = record_bytes(n, frs as usize, false);
                vol.put_raw(n, &b);
            }
            // also units of a record that the table does not have completely
            vol.put_mft_record();
            // The table may itself be described by an attribute list. The library only follows the first extent of it: what lies
            // further behind is either found or rejected.
            let (mut reach, mut ext) = (lens.len() as i64, None);
            let whole = lens.iter().scan(0, |a, l| { *a += l.0 * cu; Some(*a) }).map(|u| u / ru).collect::<Vec<u64>>();
            if shift == 0 && lens.len() > 1 && rng.chance(1, 4) {
                let j = rng.range(1, lens.len() as u64 - 1) as usize;
                let holes_before = lens[..j].iter().any(|l| l.1);
                if whole[j - 1] >= 3 && !holes_before {
                    reach = j as i64;
                    let e = rng.range(1, whole[j - 1] - 1);
                    ext = Some(e);
                    let part = |rs: &[Run], lowest: u64, first: bool| {
                        let n: u64 = rs.iter().map(|r| r.len).sum();
                        attr_nonresident(&Nr { ty: T_DATA, name: vec![], instance: 1, flags: 0, lowest, highest: lowest + n - 1, runs: encode_runs(rs),
                            alloc: if first { total / cu * cs } else { 0 }, size: if first { vol.mft_size } else { 0 }, init: if first { vol.mft_init.unwrap() } else { 0 } })
                    };
                    let low: u64 = lens[..j].iter().map(|l| l.0).sum();
                    let le = |ty, lowest, fref: u64, instance| ListEnt { ty, name: vec![], lowest, fref: fref | 1 << 48, instance };
                    let list = list_bytes(&[le(T_STD, 0, 0, 0), le(T_DATA, 0, 0, 1), le(T_DATA, low, e, 1)]);
                    let base = Rec::new(0).attr(attr_resident(T_STD, &[], 0, 0, &[0u8; 72])).attr(attr_resident(T_LIST, &[], 2, 0, &list)).attr(part(&runs[..j], 0, true));
                    let mut x = Rec::new(e);
                    x.base = 1 << 48;
                    vol.put(&x.attr(part(&runs[j..], low, false)));
                    vol.put(&base);
                    rep.add("tables_with_attribute_list", 1);
                }
            }
            let want: Vec<Vec<i64>> = ja(&c["want"]).iter().map(|w| ja(w).iter().map(ji).collect()).collect();
            let dev = |code: i64| lcn[(code / 1000) as usize - 1] * cs + (code % 1000) as u64 * 512;
            let mut fs = vol.disk.fork();
            let variant = json!({"case": c, "lcn": lcn, "style": style, "shift": shift, "runs_in_base": reach, "extension": ext});
            let r = guard(|| -> Result<(), String> {
                let ntfs = Ntfs::new(&mut fs).map_err(|e| ename(&e))?;
                let mut order: Vec<u64> = (0..want.len() as u64).collect();
                rng.shuffle(&mut order);
                for n in order {
                    let w = &want[n as usize];
                    let n = number(n);
                    if ext == Some(n) {
                        continue;
                    }
                    let got = ntfs.file(&mut fs, n);
                    if got.is_err() && w.iter().any(|c| c / 1000 > reach) {
                        rep.add("rejected_behind_first_extent", 1);
                        continue;
                    }
                    match (got, w.is_empty()) {
                        (Err(_), true) => rep.add("rejected", 1),
                        (Ok(f), true) => {
                            return Err(format!("record {} is not completely in the table, but record with link count {} is returned", n, f.hard_link_count()))
                        }
                        (Err(e), false) => return Err(format!("record {}: {}", n, ename(&e))),
                        (Ok(f), false) => {
                            rep.add("found", 1);
                            rep.add("found_by_number_over_32_bits", (n >> 32 > 0) as u64);
                            if w.windows(2).any(|x| x[0] / 1000 != x[1] / 1000) {
                                rep.add("found_straddling", 1);
                            }
                            if f.file_record_number() != n {
                                return Err(format!("record {} says it is {}", n, f.file_record_number()));
                            }
                            let p = f.position().value().map(|x| x.get());
                            if p != Some(dev(w[0])) {
                                return Err(format!("record {} is reported at {:?}, expected {}", n, p, dev(w[0])));
                            }
                            if n > 0 {
                                let exp = record_bytes(n, frs as usize, false);
                                let vo = Rec::attrs_off(frs as usize) + 24;
                                let a = f.attributes_raw().next().ok_or("no attribute")?.map_err(|e| ename(&e))?;
                                let got = match a.value(&mut fs) {
                                    Ok(ntfs::attribute_value::NtfsAttributeValue::Resident(v)) => v.data().to_vec(),
                                    _ => return Err("value".into()),
                                };
                                let plain = Rec::new(n);
                                let _ = (plain, &exp);
                                let mut val = vec![];
                                while val.len() + 16 <= frs as usize - 200 {
                                    val.extend_from_slice(&n.to_le_bytes());
                                    val.extend_from_slice(&(val.len() as u64).to_le_bytes());
                                }
                                if f.hard_link_count() != (n as u16).wrapping_add(1) || got != val {
                                    return Err(format!("record {} has other content than the stored one (attributes at {})", n, vo));
                                }
                            }
                        }
                    }
                }
                for n in (0..want.len() as u64).filter(|n| number(*n) != *n && (*n + 1) * ru <= from + shift * ru) {
                    if let Ok(f) = ntfs.file(&mut fs, n) {
                        return Err(format!("record {} lies in a hole, but record with link count {} is returned", n, f.hard_link_count()));
                    }
                    rep.add("rejected", 1);
                }
                for n in [u64::MAX, u64::MAX / frs, u64::MAX / frs + 1, u64::MAX / frs - 1, 1 << 63, i64::MAX as u64 / frs, i64::MAX as u64 / frs + 1, (1 << 32) / frs, 1 << 48, 1 << 32,
                          // numbers that alias an existing record if the product wraps
                          (u64::MAX / frs).wrapping_add(1 + 1), (1u64 << 32) + 1] {
                    if n < (total + ru - 1) / ru {
                        continue;
                    }
                    if let Ok(f) = ntfs.file(&mut fs, n) {
                        return Err(format!("record {} does not exist, but one is returned (position {:?})", n, f.position()));
                    }
                    rep.add("rejected_far", 1);
                }
                Ok(())
            });
            if let Ok(Err(m)) | Err(m) = r {
                rep.violation("mft-lookup", json!({"message": m, "variant": variant}));
            }
        }
        rep.add("tables", 1);
        if ci % 400 == 3 {
            rep.sample(3, || c.clone());
        }
    });
    rep.write(out);
}
