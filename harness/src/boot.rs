//! Boot sectors (Boot.tla, C13).
use crate::disk::Disk;
use crate::img::*;
use crate::util::*;
use ntfs::Ntfs;
use serde_json::{json, Value};

fn bytes8(v: &Value) -> u64 {
    ja(v).iter().enumerate().map(|(i, b)| (ji(b) as u64) << (8 * i)).sum()
}
fn le(v: u64, n: usize) -> Value {
    json!(v.to_le_bytes()[..n].to_vec())
}

/// A sector with the given fields, everything else arbitrary.
fn sector(ss: u16, spc: u8, frs: u8, total: u64, lcn: u64, sig: [u8; 2], serial: u64, rng: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = (0..512).map(|_| rng.below(256) as u8).collect();
    if rng.chance(1, 2) {
        b[3..11].copy_from_slice(b"NTFS    ");
        b[14..40].fill(0);
        b[68] = 1;
    }
    w16(&mut b, 11, ss);
    b[13] = spc;
    w64(&mut b, 40, total);
    w64(&mut b, 48, lcn);
    b[64] = frs;
    w64(&mut b, 72, serial);
    b[510..512].copy_from_slice(&sig);
    b
}

/// (cluster, sector, record, size, table, serial)
fn open(b: &[u8], rng: &mut Rng) -> Result<Result<(u32, u16, u32, u64, u64, u64), String>, String> {
    let mut d = Disk::new(*rng.pick(&[512u64, 1 << 20]));
    d.write(0, b);
    d.pos = rng.below(700);
    d.max_read = *rng.pick(&[0usize, 0, 1, 7, 100]);
    guard(|| match Ntfs::new(&mut d) {
        Err(e) => Err(ename(&e)),
        Ok(n) => Ok((n.cluster_size(), n.sector_size(), n.file_record_size(), n.size(), n.mft_position().value().map(|x| x.get()).unwrap_or(0), n.serial_number())),
    })
}

pub fn replay(path: &str, out: &str, seed: u64) {
    let cases = read_ndjson(path);
    let rep = parallel(&cases, |ci, c, rep| {
        let mut rng = Rng::new(seed ^ (ci as u64) << 12);
        let f = &c["f"];
        let serial = rng.next();
        let sig = [ji(&f["sig"][0]) as u8, ji(&f["sig"][1]) as u8];
        let b = sector(ji(&f["ss"]) as u16, ji(&f["spc"]) as u8, ji(&f["frs"]) as u8, bytes8(&f["total"]), bytes8(&f["lcn"]), sig, serial, &mut rng);
        let want = jb(&c["ok"]).then(|| (ji(&c["cs"]) as u32, ji(&f["ss"]) as u16, ji(&c["frs"]) as u32, bytes8(&c["size"]), bytes8(&c["pos"]), serial));
        let got = open(&b, &mut rng);
        let good = match &got {
            Ok(Ok(g)) => Some(g) == want.as_ref(),
            Ok(Err(m)) => want.is_none() && m != "Io",
            Err(_) => false,
        };
        if !good {
            rep.violation("boot", json!({"message": format!("the library gives {:?}, expected {:?} (cluster, sector, record, size, table, serial)", got, want), "fields": f}));
        }
        rep.add("sectors", 1);
        rep.add("accepted", want.is_some() as u64);
        if ci % 3001 == 5 {
            rep.sample(3, || c.clone());
        }
    });
    rep.write(out);
}

pub fn record(trace: &str, out: &str, seed: u64, n: u64) {
    let mut rep = Report::default();
    let mut w = NdWriter::create(trace);
    let mut rng = Rng::new(seed ^ 0xB007);
    for _ in 0..n {
        let mut ev = vec![];
        for _ in 0..50 {
            let wild = rng.chance(1, 6);
            let ss = if wild { rng.below(65536) as u16 } else { 1 << rng.range(8, 13) };
            let spc = if wild { rng.below(256) as u8 } else if rng.chance(1, 2) { 1 << rng.below(8) } else { rng.range(240, 255) as u8 };
            let frs = if wild { rng.below(256) as u8 } else if rng.chance(2, 3) { rng.range(243, 247) as u8 } else { rng.below(10) as u8 };
            let total = rng.next() >> rng.below(64);
            let lcn = rng.next() >> rng.below(64);
            let sig = if rng.chance(1, 20) { [rng.below(256) as u8, rng.below(256) as u8] } else { [0x55, 0xAA] };
            let serial = rng.next();
            let b = sector(ss, spc, frs, total, lcn, sig, serial, &mut rng);
            let f = json!({"ss": ss, "spc": spc, "frs": frs, "total": le(total, 8), "lcn": le(lcn, 8), "sig": sig, "serial": le(serial, 8)});
            match open(&b, &mut rng) {
                Ok(Ok((c, s, r, z, p, sn))) => {
                    rep.add("accepted", 1);
                    ev.push(json!({"f": f, "ok": true, "cs": c, "ss": s, "frs": r, "size": le(z, 8), "pos": le(p, 8), "serial": le(sn, 8)}));
                }
                Ok(Err(_)) => ev.push(json!({"f": f, "ok": false})),
                Err(m) => {
                    rep.violation("boot-record", json!({"message": m, "fields": f}));
                }
            }
            rep.add("sectors", 1);
        }
        w.put(&json!({"ev": ev}));
    }
    rep.write(out);
}
