//! Run list decoding (RunList.tla, C04): replay of enumerated byte strings, recording of random ones.
use crate::disk::{Acc, Disk};
use crate::img::*;
use crate::util::*;
use ntfs::{Ntfs, NtfsReadSeek};
use serde_json::{json, Value};

fn le8(v: u64) -> Value {
    json!(v.to_le_bytes().to_vec())
}

/// The events of decoding `b`: every call of next(), until `extra` calls behind the end or error.
pub fn events(b: &[u8], k: u64, pre: usize, tail_attr: bool, extra: usize) -> Result<Vec<Value>, String> {
    let mut vol = Vol::new(k, 512, 1024, 1 << 20, vec![Run { lcn: Some(16), len: 1 + 64 * 1024 / k }]);
    vol.put_mft_record();
    let mut a = attr_nonresident(&Nr { ty: T_DATA, name: vec![], instance: 1, flags: 0, lowest: 0, highest: 0, runs: vec![], alloc: 0, size: 1, init: 1 });
    // exactly the given bytes between the run list offset and the end of the attribute
    let name: Vec<u16> = vec![0x41; pre];
    let ro = 64 + 2 * pre;
    a.resize(ro, 0);
    a[9] = name.len() as u8;
    w16(&mut a, 10, 64);
    a[64..64 + 2 * pre].copy_from_slice(&u16bytes(&name));
    a.extend_from_slice(b);
    w16(&mut a, 32, ro as u16);
    let n = a.len();
    w32(&mut a, 4, n as u32);
    let mut r = Rec::new(20).attr(attr_resident(T_STD, &[], 0, 0, &[0; 72])).attr(a);
    if tail_attr {
        // looks like further runs if the decoder leaves the attribute
        r = r.attr(attr_resident(0x111, &[], 9, 0, &[0x11, 1, 1, 0x11, 1, 1]));
    }
    vol.put(&r);
    let mut fs = vol.disk.fork();
    guard(|| {
        let ntfs = Ntfs::new(&mut fs).map_err(|e| ename(&e))?;
        let file = ntfs.file(&mut fs, 20).map_err(|e| ename(&e))?;
        fs.size = u64::MAX;
        let attr = file
            .attributes_raw()
            .filter_map(|a| a.ok())
            .find(|a| matches!(a.ty(), Ok(ntfs::NtfsAttributeType::Data)))
            .ok_or("no data attribute")?;
        let v = attr.value(&mut fs).map_err(|e| ename(&e));
        let mut ev = vec![];
        let v = match v {
            Ok(ntfs::attribute_value::NtfsAttributeValue::NonResident(v)) => v,
            Ok(_) => return Err("not a non-resident value".into()),
            Err(_) => {
                // The first run is already decoded when the value is created.
                ev.push(json!({"r": "err"}));
                return Ok(ev);
            }
        };
        let mut it = v.data_runs();
        let mut left = extra;
        let mut guardn = 0;
        loop {
            guardn += 1;
            if guardn > 2000 {
                return Err("run list does not end".to_string());
            }
            match it.next() {
                None => ev.push(json!({"r": "end"})),
                Some(Err(_)) => ev.push(json!({"r": "err"})),
                Some(Ok(mut run)) => {
                    let alloc = run.allocated_size();
                    let dp = run.data_position().value().map(|x| x.get());
                    // Where do its bytes come from?
                    fs.log = Some(vec![]);
                    let mut buf = [0xEEu8; 1];
                    let rd = run.read(&mut fs, &mut buf);
                    let log = fs.log.take().unwrap();
                    let loc = match (rd, log.last()) {
                        (Ok(1), Some(Acc::Read(p, _))) => Some(*p),
                        (Ok(1), None) if buf[0] == 0 => None,
                        // the last position of the address space cannot be read
                        (Ok(0), _) if dp == Some(u64::MAX) => dp,
                        (x, _) => return Err(format!("reading the first byte of a run: {:?}", x.map_err(|e| ename(&e)))),
                    };
                    if loc.unwrap_or(0) != dp.unwrap_or(0) {
                        return Err(format!("a run says it is at {:?} but is read at {:?}", dp, loc));
                    }
                    ev.push(json!({"r": "run", "a": le8(alloc), "loc": loc.map(le8).unwrap_or(json!([]))}));
                    continue;
                }
            }
            if left == 0 {
                break;
            }
            left -= 1;
        }
        Ok(ev)
    })?
}

pub fn replay(path: &str, out: &str, seed: u64) {
    let cases = read_ndjson(path);
    let rep = parallel(&cases, |i, c, rep| {
        let mut rng = Rng::new(seed ^ i as u64);
        let b: Vec<u8> = ja(&c["b"]).iter().map(|x| ji(x) as u8).collect();
        let k = ji(&c["k"]) as u64;
        let mut want: Vec<Value> = ja(&c["out"]).iter().map(|r| json!({"r": "run", "a": r["a"], "loc": r["loc"]})).collect();
        for _ in 0..3 {
            want.push(json!({"r": c["stat"]}));
        }
        let (pre, ta) = (rng.below(4) as usize, rng.chance(1, 2));
        rep.add("runlists", 1);
        rep.add("runs", want.len() as u64 - 3);
        if c["stat"] == "err" {
            rep.add("rejected_runlists", 1);
        }
        match events(&b, k, pre, ta, 2) {
            Ok(e) if e == want => {}
            Ok(e) if e.len() == 1 && e[0]["r"] == "err" && want[0]["r"] == "err" => {}
            // A list whose first entry is damaged may be rejected when the value is created.
            o => rep.violation("runlist", json!({"message": "a run list is not decoded to what it denotes", "bytes": b, "cluster_size": k,
                                                  "expected": want, "observed": format!("{:?}", o)})),
        }
        if i % 9973 == 0 {
            rep.sample(3, || json!({"bytes": b, "cluster_size": k, "expected": want}));
        }
    });
    rep.write(out);
}

/// Records decodings of random byte strings.
pub fn record(trace: &str, out: &str, seed: u64, n: u64) {
    let mut w = NdWriter::create(trace);
    let mut rep = Report::default();
    let mut rng = Rng::new(seed ^ 0xC04);
    for _ in 0..n {
        let k = *rng.pick(&[512u64, 1024, 4096, 65536, 1 << 21]);
        let mut b: Vec<u8> = vec![];
        for _ in 0..rng.range(1, 12) {
            let (nl, nd) = match rng.below(12) {
                0 => (rng.below(10), rng.below(10)),
                1 => (rng.range(1, 8), 0),
                _ => (rng.range(1, 4), rng.range(1, 6)),
            };
            b.push((nd * 16 + nl) as u8);
            let small = rng.chance(3, 4);
            for j in 0..nl {
                b.push(if small && j > 0 { 0 } else { rng.below(256) as u8 });
            }
            for j in 0..nd {
                b.push(if small && j > 1 { *rng.pick(&[0, 0, 0, 1]) } else { rng.below(256) as u8 });
            }
        }
        match rng.below(4) {
            0 => {
                b.push(0);
            }
            1 => {
                b.push(0);
                for _ in 0..rng.below(6) {
                    b.push(rng.below(256) as u8);
                }
            }
            2 => {
                let cut = rng.below(b.len() as u64) as usize;
                b.truncate(b.len() - cut);
            }
            _ => {}
        }
        if rng.chance(1, 10) {
            b = (0..rng.range(1, 30)).map(|_| rng.next() as u8).collect();
        }
        match events(&b, k, rng.below(4) as usize, rng.chance(1, 2), 2) {
            Ok(e) => w.put(&json!({"b": b, "k": k, "ev": e})),
            Err(m) => rep.violation("runlist", json!({"message": m, "bytes": b, "cluster_size": k})),
        }
        rep.add("recorded", 1);
    }
    rep.write(out);
}
