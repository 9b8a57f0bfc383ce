//! Structures inside structures (Contain.tla, C20): volumes with every combination of declared sizes and offsets are walked with the
//! library; what it delivers must be what the specification delivers, byte by byte the contents of the container at that place.
use crate::img::*;
use crate::util::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::{NtfsPosition, Vcn};
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::{Ntfs, NtfsAttribute, NtfsFile, NtfsIndexEntry, NtfsReadSeek};
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct Plain;
#[derive(Debug)]
pub struct Raw(pub Vec<u8>);
impl NtfsIndexEntryKey for Raw {
    fn key_from_slice(slice: &[u8], _position: NtfsPosition) -> ntfs::Result<Self> {
        Ok(Raw(slice.to_vec()))
    }
}
impl NtfsIndexEntryType for Plain {
    type KeyType = Raw;
}

/// What the library delivers: kind, length, bytes (empty where they are not visible).
#[derive(Debug, Clone, PartialEq)]
struct Ev(&'static str, usize, Option<Vec<u8>>);

const HUGE: i64 = 2_000_000_000;
const FRS: usize = 1024;
const NUM: u64 = 24;

struct Case<'a> {
    c: &'a Value,
    rng: Rng,
}
impl Case<'_> {
    fn raw(&self, k: &str) -> i64 {
        ji(&self.c[k])
    }
    fn flag(&self, k: &str) -> bool {
        jb(&self.c[k])
    }
    fn u32(&mut self, k: &str) -> u32 {
        match self.raw(k) {
            HUGE => *self.rng.pick(&[2_000_000_000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFE0, 0xFFFF_FFFF, 0xFFFF_FFF0]),
            x => x as u32,
        }
    }
    fn u64(&mut self, k: &str) -> u64 {
        match self.raw(k) {
            HUGE => *self.rng.pick(&[2_000_000_000, 1 << 40, u64::MAX, 1 << 63, i64::MAX as u64, u64::MAX - 511]),
            x => x as u64,
        }
    }
}

fn vol() -> Vol {
    let mut v = Vol::small();
    v.put_mft_record();
    v
}

fn e<E: std::fmt::Debug>(x: E) -> String {
    ename(&x)
}

/// A record whose bytes behind the header are `fill`, with a declared used size and size.
fn shell(first: usize, used: u32, alloc: u32) -> Vec<u8> {
    let mut b = vec![0u8; FRS];
    b[0..4].copy_from_slice(b"FILE");
    w16(&mut b, 16, 1);
    w16(&mut b, 18, 1);
    w16(&mut b, 20, first as u16);
    w16(&mut b, 22, 3);
    w32(&mut b, 24, used);
    w32(&mut b, 28, alloc);
    w16(&mut b, 40, 100);
    w32(&mut b, 44, NUM as u32);
    b
}

fn put(b: &mut [u8], o: usize, d: &[u8]) {
    for (i, x) in d.iter().enumerate() {
        if o + i < b.len() {
            b[o + i] = *x;
        }
    }
}

fn value_bytes(fs: &mut crate::disk::Disk, a: &NtfsAttribute) -> Result<Vec<u8>, String> {
    let mut v = a.value(fs).map_err(e)?;
    let mut out = vec![];
    let mut buf = [0u8; 100];
    loop {
        let n = v.read(fs, &mut buf).map_err(e)?;
        if n == 0 {
            return Ok(out);
        }
        out.extend(&buf[..n]);
        if out.len() > 100_000 {
            return Err("mismatch: value without end".into());
        }
    }
}

fn walk_attrs(v: &mut Vol, nr: bool) -> Result<Vec<Ev>, String> {
    let fs = &mut v.disk;
    let ntfs = Ntfs::new(fs).map_err(|x| format!("mismatch: {}", e(x)))?;
    let file = match ntfs.file(fs, NUM) {
        Ok(f) => f,
        Err(_) => return Ok(vec![Ev("error", 0, None)]),
    };
    let mut out = vec![Ev("open", file.allocated_size() as usize, None)];
    for a in file.attributes_raw() {
        let a = match a {
            Ok(a) => a,
            Err(_) => {
                out.push(Ev("error", 0, None));
                return Ok(out);
            }
        };
        out.push(Ev("attr", a.attribute_length() as usize, None));
        match a.name() {
            Ok(n) => out.push(Ev("name", n.0.len(), Some(n.0.to_vec()))),
            Err(_) => out.push(Ev("nameerr", 0, None)),
        }
        if nr {
            // the runs, without access to the clusters they name
            match a.value(fs) {
                Err(_) => out.push(Ev("runserr", 0, None)),
                Ok(NtfsAttributeValue::NonResident(x)) => {
                    let mut n = 0;
                    let mut bad = false;
                    for r in x.data_runs() {
                        match r {
                            Ok(_) => n += 1,
                            Err(_) => {
                                bad = true;
                                break;
                            }
                        }
                        if n > 1000 {
                            return Err("mismatch: runs without end".into());
                        }
                    }
                    out.push(if bad { Ev("runserr", 0, None) } else { Ev("runs", n, None) });
                }
                Ok(_) => return Err("mismatch: the value is not non-resident".into()),
            }
        } else {
            match value_bytes(fs, &a) {
                Ok(b) => {
                    if a.value_length() != b.len() as u64 {
                        return Err(format!("mismatch: value_length {} of {} bytes", a.value_length(), b.len()));
                    }
                    out.push(Ev("value", b.len(), Some(b)))
                }
                Err(m) if m.starts_with("mismatch") => return Err(m),
                Err(_) => out.push(Ev("valueerr", 0, None)),
            }
        }
        if out.len() > 3000 {
            return Err("mismatch: attributes without end".into());
        }
    }
    out.push(Ev("end", 0, None));
    Ok(out)
}

fn entry_ev(x: &NtfsIndexEntry<Plain>, full: bool, out: &mut Vec<Ev>) {
    out.push(Ev("entry", x.index_entry_length() as usize, None));
    if !full {
        return;
    }
    match x.key() {
        None => out.push(Ev("key", 0, None)),
        Some(Ok(k)) => out.push(Ev("key", k.0.len(), Some(k.0))),
        Some(Err(_)) => out.push(Ev("keyerr", 0, None)),
    }
    match x.subnode_vcn() {
        None => out.push(Ev("sub", 0, None)),
        Some(Ok(s)) => out.push(Ev("sub", 8, Some(s.value().to_le_bytes().to_vec()))),
        Some(Err(_)) => out.push(Ev("suberr", 0, None)),
    }
}

fn walk_entries<'a>(it: impl Iterator<Item = ntfs::Result<NtfsIndexEntry<'a, Plain>>>, full: bool, out: &mut Vec<Ev>) -> Result<(), String> {
    for x in it {
        match x {
            Ok(x) => entry_ev(&x, full, out),
            Err(_) => {
                out.push(Ev("error", 0, None));
                return Ok(());
            }
        }
        if out.len() > 3000 {
            return Err("mismatch: entries without end".into());
        }
    }
    out.push(Ev("end", 0, None));
    Ok(())
}

/// Walks the index of the first attribute (root) or the record at VCN 0 of the first attribute (allocation).
fn walk_node(v: &mut Vol, in_record: bool, full: bool) -> Result<Vec<Ev>, String> {
    let fs = &mut v.disk;
    let ntfs = Ntfs::new(fs).map_err(|x| format!("mismatch: {}", e(x)))?;
    let file = ntfs.file(fs, NUM).map_err(|x| format!("mismatch: {}", e(x)))?;
    let a = file.attributes_raw().next().ok_or("mismatch: no attribute")?.map_err(|x| format!("mismatch: {}", e(x)))?;
    let mut out = vec![];
    if in_record {
        let al = a.structured_value::<_, NtfsIndexAllocation>(fs).map_err(|x| format!("mismatch: {}", e(x)))?;
        match al.record_from_vcn(fs, FRS as u32, Vcn::from(0)) {
            Err(_) => out.push(Ev("error", 0, None)),
            Ok(rec) => match rec.entries::<Plain>() {
                Err(_) => out.push(Ev("error", 0, None)),
                Ok(it) => walk_entries(it, full, &mut out)?,
            },
        }
    } else {
        match a.resident_structured_value::<NtfsIndexRoot>() {
            Err(_) => out.push(Ev("error", 0, None)),
            Ok(root) => match root.entries::<Plain>() {
                Err(_) => out.push(Ev("error", 0, None)),
                Ok(it) => walk_entries(it, full, &mut out)?,
            },
        }
    }
    Ok(out)
}

/// The same index through the iterator over the whole directory: an entry or none, then the end or an error.
fn directory(v: &mut Vol) -> Result<&'static str, String> {
    let fs = &mut v.disk;
    fs.accesses = 0;
    let ntfs = Ntfs::new(fs).map_err(|x| format!("mismatch: {}", e(x)))?;
    let file = ntfs.file(fs, NUM).map_err(|x| format!("mismatch: {}", e(x)))?;
    let ix = match file.directory_index(fs) {
        Ok(i) => i,
        Err(_) => return Ok("error"),
    };
    let mut it = ix.entries();
    match it.next(fs) {
        None => Ok("end"),
        Some(Err(_)) => Ok("error"),
        Some(Ok(_)) => Err("mismatch: the directory has an entry".into()),
    }
}

/// Bytes that look like an index entry wherever one starts looking on 8-byte borders.
fn plausible(n: usize) -> Vec<u8> {
    let one = Ent { fref: 0, key: vec![], sub: None, last: true }.bytes();
    let mut b: Vec<u8> = vec![];
    while b.len() < n {
        b.extend(&one);
    }
    b.truncate(n);
    b
}

/// Returns the walk of the library and the bytes events refer to by their offset.
fn run(part: &str, x: &mut Case) -> Result<(Vec<Ev>, Vec<u8>), String> {
    let mut v = vol();
    v.disk.budget = 20_000;
    match part {
        "record" => {
            let f = x.raw("F") as usize;
            let (u, a) = (x.u32("U"), x.u32("A"));
            let mut b = shell(f, u, a);
            if f >= 56 && f <= FRS {
                for o in f..FRS {
                    b[o] = 0x10;
                }
                let mut at = attr_resident(T_DATA, &[], 1, 0, &[1, 2, 3, 4, 5, 6, 7, 8]);
                at[24] = x.rng.below(256) as u8;
                put(&mut b, f, &at[..usize::min(at.len(), FRS - f)]);
                if x.flag("T") && f + 36 <= FRS {
                    put(&mut b, f + 32, &[0xFF; 4]);
                }
            }
            let plain = b.clone();
            protect(&mut b, 48, 7);
            v.put_raw(NUM, &b);
            Ok((walk_attrs(&mut v, false)?, plain))
        }
        "attr" | "nr" => {
            let nr = part == "nr";
            let room = if nr { 128 } else { 64 };
            let mut b = shell(56, 56 + room as u32, FRS as u32);
            for o in 56..FRS {
                b[o] = (o % 251) as u8 | 1;
            }
            let l = x.u32("L");
            w32(&mut b, 56, T_DATA);
            w32(&mut b, 60, l);
            b[64] = nr as u8;
            b[65] = x.raw("NL") as u8;
            w16(&mut b, 66, x.raw("NO") as u16);
            w16(&mut b, 68, 0);
            w16(&mut b, 70, 3);
            if nr {
                w64(&mut b, 72, 0);
                w64(&mut b, 80, 40);
                w16(&mut b, 88, x.raw("RO") as u16);
                w64(&mut b, 96, 100 * 512);
                w64(&mut b, 104, 100 * 512);
                w64(&mut b, 112, 100 * 512);
                let ro = 56 + x.raw("RO") as usize;
                let mut o = ro;
                while o < FRS {
                    put(&mut b, o, &[0x11, 1, 1]);
                    o += 3;
                }
            } else {
                w32(&mut b, 72, x.u32("VL"));
                w16(&mut b, 76, x.raw("VO") as u16);
            }
            let header = if nr { 64 } else { 24 };
            if l >= header && l as usize + 4 <= room {
                put(&mut b, 56 + l as usize, &[0xFF; 4]);
            }
            let plain = b.clone();
            protect(&mut b, 48, 7);
            v.put_raw(NUM, &b);
            Ok((walk_attrs(&mut v, nr)?, plain))
        }
        "list" => {
            let rest = x.raw("REST") as usize;
            let mut val = list_bytes(&[ListEnt { ty: T_DATA, name: vec![], lowest: 0, fref: NUM | 1 << 48, instance: 3 }]);
            let mut second = vec![0u8; 26];
            w32(&mut second, 0, T_BITMAP);
            w16(&mut second, 4, x.raw("EL") as u16);
            second[6] = x.raw("NL") as u8;
            second[7] = 26;
            second.extend([b'a', 0, b'b', 0, b'c', 0, b'd', 0, b'e', 0, b'f', 0, b'g', 0]);
            if x.raw("EL") > 0 {
                second.truncate(usize::min(second.len(), usize::max(26, x.raw("EL") as usize)));
            }
            second.resize(usize::max(40, rest), 0);
            let whole: Vec<u8> = [val.clone(), second.clone()].concat();
            val.extend(&second[..rest]);
            let mut r = Rec::new(NUM);
            if x.flag("NR") {
                let size = val.len() as u64;
                v.disk.write(2000 * 512, &vec![0u8; 512]);
                v.disk.write(2000 * 512, &whole);
                r.attrs.push(nr_simple(T_LIST, &[], 1, 512, &[Run { lcn: Some(2000), len: 1 }], size, size));
            } else {
                let mut a = attr_resident(T_LIST, &[], 1, 0, &whole);
                w32(&mut a, 16, val.len() as u32);
                r.attrs.push(a);
            }
            r.attrs.push(if x.rng.chance(1, 2) {
                nr_simple(T_DATA, &[], 3, 512, &[Run { lcn: Some(3000), len: 1 }], 512, 512)
            } else {
                attr_resident(T_DATA, &[], 3, 0, &[1; 8])
            });
            v.put(&r);
            let fs = &mut v.disk;
            let ntfs = Ntfs::new(fs).map_err(|x| format!("mismatch: {}", e(x)))?;
            let file = ntfs.file(fs, NUM).map_err(|x| format!("mismatch: {}", e(x)))?;
            let a = file.attributes_raw().next().unwrap().map_err(|x| format!("mismatch: {}", e(x)))?;
            let l = a.structured_value::<_, NtfsAttributeList>(fs).map_err(|x| format!("mismatch: {}", e(x)))?;
            let mut out = vec![];
            let mut it = l.entries();
            loop {
                match it.next(fs) {
                    None => {
                        out.push(Ev("end", 0, None));
                        break;
                    }
                    Some(Err(_)) => {
                        out.push(Ev("error", 0, None));
                        break;
                    }
                    Some(Ok(en)) => {
                        out.push(Ev("entry", en.list_entry_length() as usize, None));
                        if out.len() > 1 {
                            out.push(Ev("key", en.name().0.len(), Some(en.name().0.to_vec())));
                        }
                        if out.len() > 1000 {
                            return Err("mismatch: list without end".into());
                        }
                    }
                }
            }
            // Whoever goes through the attributes needs the whole list.
            let mut it = file.attributes();
            let (mut n, mut failed) = (0, false);
            while let Some(i) = it.next(fs) {
                // (An iterator goes on repeating an error it has met.)
                failed = i.is_err();
                n += 1;
                if failed {
                    break;
                }
                if n > 1000 {
                    return Err("mismatch: attributes without end".into());
                }
            }
            let broken = out.last().map_or(false, |e| e.0 == "error");
            if broken && !failed {
                return Err("mismatch: the attributes of a file with a broken list are iterated without an error".into());
            }
            if failed && rest == 0 {
                return Err("mismatch: the attributes of a file with an intact list cannot be iterated".into());
            }
            Ok((out, whole))
        }
        "root" => {
            let vlen = x.raw("V") as usize;
            let mut whole = index_root_value(1024, 2, &[], false);
            w32(&mut whole, 16, x.u32("EO"));
            w32(&mut whole, 20, x.u32("US"));
            w32(&mut whole, 24, x.rng.below(100) as u32);
            whole.extend(plausible(256));
            let eo = x.raw("EO");
            if eo < 200 {
                put(&mut whole, 16 + eo as usize, &plausible(128));
                // the header counts where entries would overlap it
                w32(&mut whole, 16, eo as u32);
                let us = x.u32("US");
                w32(&mut whole, 20, us);
                whole[28] = 0;
            }
            let mut a = attr_resident(T_IROOT, &u16s("$I30"), 1, 0, &whole);
            w32(&mut a, 16, vlen as u32);
            v.put(&Rec::dir(NUM).attr(a));
            let out = walk_node(&mut v, false, false)?;
            let d = directory(&mut v)?;
            let last = out.last().unwrap().0;
            if d != last {
                return Err(format!("mismatch: the root's entries end with {}, the directory with {}", last, d));
            }
            Ok((out, whole))
        }
        "node" => {
            let mut rec = index_record_plain(FRS, 0, &[]);
            let us = x.u32("US");
            w32(&mut rec, 28, us);
            let al = x.u32("AL");
            w32(&mut rec, 32, al);
            let eo = x.u32("EO");
            w32(&mut rec, 24, eo);
            if eo >= 24 && eo < 2000 {
                put(&mut rec, 24 + eo as usize, &plausible(FRS));
            }
            let plain = rec.clone();
            protect(&mut rec, 40, 9);
            v.disk.write(2000 * 512, &rec);
            v.put(&Rec::dir(NUM).attr(nr_simple(T_IALLOC, &u16s("$I30"), 1, 512, &[Run { lcn: Some(2000), len: 4 }], 2048, 2048)));
            Ok((walk_node(&mut v, true, false)?, plain))
        }
        "entry" => {
            let w = x.raw("W") as usize;
            let in_record = x.flag("NR");
            let el = x.raw("EL") as usize;
            let mut bytes: Vec<u8> = (0..512).map(|i| (i % 13 + 65) as u8).collect();
            w64(&mut bytes, 0, 77 | 1 << 48);
            w16(&mut bytes, 8, el as u16);
            w16(&mut bytes, 10, x.raw("KL") as u16);
            bytes[12] = x.raw("FL") as u8;
            if el >= 16 && el < w {
                let n = w - el;
                bytes[el..w].fill(0);
                if n >= 16 {
                    let t = Ent { fref: 0, key: vec![], sub: None, last: true }.bytes();
                    bytes[el..el + 16].copy_from_slice(&t);
                }
            }
            let plain = bytes.clone();
            if in_record {
                let mut rec = index_record_plain(FRS, 0, &[]);
                w32(&mut rec, 24, 24);
                w32(&mut rec, 28, (24 + w) as u32);
                rec[48..48 + 500].copy_from_slice(&bytes[..500]);
                // the sector's end lies behind the node
                let plain = rec[48..].to_vec();
                protect(&mut rec, 40, 9);
                v.disk.write(2000 * 512, &rec);
                v.put(&Rec::dir(NUM).attr(nr_simple(T_IALLOC, &u16s("$I30"), 1, 512, &[Run { lcn: Some(2000), len: 4 }], 2048, 2048)));
                Ok((walk_node(&mut v, true, true)?, plain))
            } else {
                let mut whole = index_root_value(1024, 2, &[], false);
                w32(&mut whole, 20, (16 + w) as u32);
                w32(&mut whole, 24, (16 + w) as u32);
                whole.extend(&bytes[..300]);
                let mut a = attr_resident(T_IROOT, &u16s("$I30"), 1, 0, &whole);
                w32(&mut a, 16, (32 + w) as u32);
                v.put(&Rec::dir(NUM).attr(a));
                Ok((walk_node(&mut v, false, true)?, plain))
            }
        }
        _ => unreachable!(),
    }
}

/// A value whose sizes and clusters disagree.
fn value(x: &mut Case, split: bool, chunk: usize) -> Result<(usize, Vec<u8>, &'static str, Vec<u8>), String> {
    let mut v = vol();
    v.disk.budget = 20_000;
    let k = x.raw("K") as usize;
    let (d, i) = (x.u64("D"), x.u64("I"));
    let mut stored = vec![];
    let mut runs = vec![];
    for c in 0..k {
        let sparse = x.flag("SP") && c + 1 == k;
        let lcn = 2000 + 5 * c as u64;
        runs.push(Run { lcn: if sparse { None } else { Some(lcn) }, len: 1 });
        let b: Vec<u8> = (0..512).map(|o| ((o * 3 + c * 7) % 255 + 1) as u8).collect();
        if sparse {
            stored.extend(vec![0; 512]);
        } else {
            v.disk.write(lcn * 512, &b);
            stored.extend(b);
        }
    }
    if split {
        // the second cluster is named by a part of the attribute in another record
        let nr = |lowest: u64, run: &Run, instance: u16| {
            attr_nonresident(&Nr {
                ty: T_DATA,
                name: vec![],
                instance,
                flags: 0,
                lowest,
                highest: lowest,
                runs: encode_runs(&[run.clone()]),
                alloc: 1024,
                size: d,
                init: i,
            })
        };
        let list = list_bytes(&[
            ListEnt { ty: T_DATA, name: vec![], lowest: 0, fref: NUM + 1 | 1 << 48, instance: 2 },
            ListEnt { ty: T_DATA, name: vec![], lowest: 1, fref: NUM + 2 | 1 << 48, instance: 4 },
        ]);
        v.put(&Rec::new(NUM).attr(attr_resident(T_LIST, &[], 1, 0, &list)));
        v.put(&Rec::new(NUM + 1).attr(nr(0, &runs[0], 2)));
        v.put(&Rec::new(NUM + 2).attr(nr(1, &runs[1], 4)));
    } else {
        v.put(&Rec::new(NUM).attr(nr_simple(T_DATA, &[], 3, 512, &runs, d, i)));
    }
    let fs = &mut v.disk;
    let ntfs = Ntfs::new(fs).map_err(|x| format!("mismatch: {}", e(x)))?;
    let file: NtfsFile = ntfs.file(fs, NUM).map_err(|x| format!("mismatch: {}", e(x)))?;
    let item = file.data(fs, "").ok_or("mismatch: no data")?.map_err(|x| format!("mismatch: {}", e(x)))?;
    let a = item.to_attribute().map_err(|x| format!("mismatch: {}", e(x)))?;
    let mut out = vec![];
    let mut val = match a.value(fs) {
        Ok(v) => v,
        Err(_) => return Ok((0, out, "error", stored)),
    };
    if val.len() != d {
        return Err(format!("mismatch: len() is {}, declared {}", val.len(), d));
    }
    let mut buf = vec![0x99u8; chunk];
    let end = loop {
        match val.read(fs, &mut buf) {
            Ok(0) => break "end",
            Ok(n) => out.extend(&buf[..n]),
            Err(_) => break "error",
        }
        if out.len() > 10_000 {
            return Err("mismatch: bytes without end".into());
        }
    };
    // behind its clusters and behind its end there is nothing either
    let have = u64::min(d, stored.len() as u64);
    for p in [have, have + 1, d, d.saturating_add(512)] {
        let mut val = a.value(fs).map_err(|x| format!("mismatch: {}", e(x)))?;
        if val.seek(fs, std::io::SeekFrom::Start(p)).is_ok() {
            if let Ok(n) = val.read(fs, &mut buf) {
                if n > 0 {
                    return Err(format!("mismatch: {} bytes at {} behind the {} there are", n, p, have));
                }
            }
        }
    }
    Ok((out.len(), out, end, stored))
}

fn check(part: &str, c: &Value, seed: u64, ci: usize, rep: &mut Report) {
    let want = ja(&c["out"]);
    if part == "value" {
        let k = ji(&c["c"]["K"]);
        for split in [false, true] {
            if split && k != 2 {
                continue;
            }
            for chunk in [7usize, 512, 4096] {
                let mut x = Case { c: &c["c"], rng: Rng::new(seed ^ (ci as u64) << 8 ^ chunk as u64) };
                let r = guard(|| value(&mut x, split, chunk));
                let bad = match r {
                    Err(m) | Ok(Err(m)) => Some(m),
                    Ok(Ok((n, b, end, stored))) => {
                        let have = ji(&want[0]["o"]) as usize;
                        let init = ji(&want[0]["n"]) as usize;
                        let fin = js(&want[1]["k"]);
                        // With clusters missing, an error may come before the last bytes, but not before the last cluster.
                        let full = if fin == "any" && end == "error" { n <= have && n + chunk >= have || n == 0 && k == 0 } else { n == have };
                        if !full {
                            Some(format!("{} bytes delivered, then {}; {} are there", n, end, have))
                        } else if fin == "end" && end != "end" {
                            Some("an error instead of the end".into())
                        } else {
                            (0..n).find(|&i| b[i] != if i < init { stored[i] } else { 0 }).map(|i| format!("byte {} is {:#x}", i, b[i]))
                        }
                    }
                };
                rep.add("walks", 1);
                rep.add("of_value", 1);
                if let Some(m) = bad {
                    rep.violation("contain", json!({"message": format!("value (split {}, chunks of {}): {}", split, chunk, m), "case": c}));
                }
            }
        }
        return;
    }
    let mut x = Case { c: &c["c"], rng: Rng::new(seed ^ (ci as u64) << 8) };
    let r = guard(|| run(part, &mut x));
    let bad = match r {
        Err(m) | Ok(Err(m)) => Some(m),
        Ok(Ok((mut got, bytes))) => {
            // the specification does not open anything but records
            if part != "record" && got.first().map(|g| g.0) == Some("open") {
                got.remove(0);
            }
            let mut bad = None;
            for (i, w) in want.iter().enumerate() {
                let k = js(&w["k"]);
                let (o, n) = (ji(&w["o"]) as usize, ji(&w["n"]) as usize);
                let Some(g) = got.get(i) else {
                    bad = Some(format!("event {} is missing: {}", i, w));
                    break;
                };
                let ok = if k == "any" {
                    g.0 == "end" || g.0 == "error"
                } else {
                    g.0 == k && (k == "open" || g.1 == n) && g.2.as_ref().is_none_or(|b| n == 0 || &bytes[o..o + n] == &b[..])
                };
                if !ok {
                    bad = Some(format!("event {}: expected {}, got {:?}", i, w, g));
                    break;
                }
            }
            if bad.is_none() && got.len() != want.len() {
                bad = Some(format!("{} events beyond the last one", got.len() - want.len()));
            }
            bad
        }
    };
    rep.add("walks", 1);
    rep.add(&format!("of_{}", part), 1);
    if js(&want.last().unwrap()["k"]) == "error" {
        rep.add("refused", 1);
    }
    if let Some(m) = bad {
        rep.violation("contain", json!({"message": format!("{}: {}", part, m), "case": c}));
    }
}

pub fn replay(cases: &str, out: &str, seed: u64) {
    let cases = read_ndjson(cases);
    let rep = parallel(&cases, |ci, c, rep| {
        check(js(&c["part"]), c, seed, ci, rep);
        if ci % 1500 == 3 {
            rep.sample(4, || c.clone());
        }
    });
    rep.write(out);
}
