//! Attributes spread over records (Attrs.tla, C07) and lookups (C08).
use crate::disk::Disk;
use crate::img::*;
use crate::util::*;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::NtfsFileNamespace;
use ntfs::{Ntfs, NtfsAttribute, NtfsFile, NtfsReadSeek};
use serde_json::{json, Value};
use std::sync::OnceLock;

pub struct Base {
    pub vol: Vol,
}

/// A volume with an upcase table that is shared by many cases.
pub fn base(frs: u64) -> &'static Vol {
    static B: OnceLock<Vec<Base>> = OnceLock::new();
    let b = B.get_or_init(|| {
        [1024u64, 4096]
            .iter()
            .map(|f| {
                // 64 records, and again 64 whose numbers are greater by 2 to the 32
                let k = 64 * f / 512;
                let mut vol = Vol::new(512, 512, *f, 1 << 16, vec![
                    Run { lcn: Some(16), len: k },
                    Run { lcn: None, len: (1 << 32) * (f / 512) - k },
                    Run { lcn: Some(60000), len: k },
                ]);
                vol.put_mft_record();
                let mut t = ascii_upcase();
                t[0xE9] = 0xC9;
                t[0x3B1] = 0x391;
                vol.put_upcase(2000, &t);
                Base { vol }
            })
            .collect()
    });
    &b[(frs == 4096) as usize].vol
}
pub fn fork(v: &Vol) -> Vol {
    Vol { cs: v.cs, ss: v.ss, frs: v.frs, size: v.size, mft: v.mft.clone(), mft_size: v.mft_size, mft_init: v.mft_init, disk: v.disk.fork() }
}

struct LAttr {
    t: u32,
    name: Vec<u16>,
    res: bool,
    place: Vec<usize>,
    content: Vec<u8>,
    /// so many zeros stand behind so many bytes of the content (more than can be read)
    gap: (u64, u64),
    /// physical attributes, one per extent (instance numbers still to be set)
    phys: Vec<Vec<u8>>,
}

fn names(round: u64) -> Vec<Vec<u16>> {
    // no name in UTF-8
    if round % 6 == 5 {
        return vec![
            vec![], vec![0xD800, 0x61], vec![0xD800, 0x41], vec![0xDC00, 0x62], vec![0xDC00, 0x42], vec![0x71, 0xD83D], vec![0x51, 0xD83D], u16s("$I30"), u16s("$i30"),
        ];
    }
    let s: Vec<String> = match round % 6 {
        4 => ["", "\0a", "\0A", "\0ab", "\0AB", "a\0", "A\0", "$I30", "$i30"].iter().map(|s| s.to_string()).collect(),
        0 => ["", "ads", "ADS", "adt", "aDt", "x", "X", "$I30", "$i30"].iter().map(|s| s.to_string()).collect(),
        1 => ["", "\u{e9}", "\u{c9}", "\u{e9}\u{3b1}", "\u{c9}\u{391}", "Zone.Identifier", "zone.identifier", "$I30", "$i30"].iter().map(|s| s.to_string()).collect(),
        2 => {
            let l = "n".repeat(40);
            let u = "N".repeat(40);
            vec!["".into(), l.clone(), u.clone(), format!("{}b", l), format!("{}B", u), "m".into(), "M".into(), "$I30".into(), "$i30".into()]
        }
        _ => ["", "a", "A", "aa", "AA", "\u{1F600}q", "\u{1F600}Q", "$I30", "$i30"].iter().map(|s| s.to_string()).collect(),
    };
    s.iter().map(|x| u16s(x)).collect()
}

struct File {
    vol: Vol,
    rec: u64,
    recs: Vec<u64>,
    attrs: Vec<LAttr>,
    /// per record: (type, name, instance, resident, bytes) of the physical attributes in order, with offset
    phys: Vec<Vec<(u32, Vec<u16>, u16, usize, Vec<u8>)>>,
    nm: Vec<Vec<u16>>,
    style: u64,
}

/// File record number of a parent directory: in every third style they are alike in their low 32 bits.
fn parent_number(code: i64, style: u64) -> u64 {
    if style % 3 == 1 {
        25 + ((code as u64) << 32)
    } else {
        code as u64 + 20
    }
}

fn build(c: &Value, rng: &mut Rng, round: u64) -> File {
    let most = ja(&c["recs"]).iter().chain([&c["base"]]).map(|r| ja(r).len()).max().unwrap();
    let frs = if most <= 4 && (round % 4 == 0 || round % 4 == 3) { 1024 } else { 4096 };
    let mut vol = fork(base(frs));
    let cs = vol.cs;
    let nm = names(round);
    let list = ji(&c["list"]);
    let nrecs = ji(&c["nrecs"]) as usize;
    let is_vol = !ja(&c["volname"]).is_empty() || !ja(&c["volinfo"]).is_empty() || nrecs == 1;
    let mut recs: Vec<u64> = vec![];
    let mut pool: Vec<u64> = (24..60).collect();
    rng.shuffle(&mut pool);
    recs.push(if is_vol { 3 } else { pool[0] });
    recs.extend(pool[1..nrecs].iter());
    if round % 5 == 2 {
        // numbers that differ in their high half only
        for i in (1..nrecs).step_by(2) {
            recs[i] = recs[i - 1] + (1 << 32);
        }
        if !is_vol && nrecs > 1 && rng.chance(1, 2) {
            recs.swap(0, 1);
        }
    }
    let mut lcn = 3000 + rng.below(50);
    let mut attrs = vec![];
    for (i, a) in ja(&c["attrs"]).iter().enumerate() {
        let t = ji(&a["t"]) as u32;
        let name = nm[ji(&a["nm"]) as usize].clone();
        let res = jb(&a["res"]);
        let x = ji(&a["x"]);
        let place: Vec<usize> = ja(&a["place"]).iter().map(|p| ji(p) as usize).collect();
        let mut content = vec![];
        let mut phys = vec![];
        let mut hole = (0, 0);
        // Sparse and encrypted values are stored like any others.
        let flags = if t == T_DATA && rng.chance(1, 2) { *rng.pick(&[0x8000u16, 0x4000, 0xC000]) } else { 0 };
        if res {
            content = match t {
                T_STD => {
                    let mut b = vec![0u8; if round % 2 == 0 { 72 } else { 48 }];
                    w64(&mut b, 0, 132539328000000000 + i as u64);
                    b
                }
                T_NAME => {
                    let mut f = Fname::new(parent_number(ji(&a["par"]), round), &u16s(&format!("f{}", i)), ji(&a["ns"]) as u8);
                    f.parent |= (rng.below(5)) << 48;
                    f.bytes()
                }
                T_VOLNAME => u16bytes(&u16s(&format!("label{}", i))),
                T_VOLINFO => vec![0, 0, 0, 0, 0, 0, 0, 0, 3, i as u8, 0, 0],
                T_IROOT => {
                    let large = x == 4;
                    let e = Ent { fref: i as u64 + 100, key: Fname::new(5, &u16s("m"), 1).bytes(), sub: if large { Some(0) } else { None }, last: false };
                    let l = Ent { fref: 0, key: vec![], sub: None, last: true };
                    index_root_value(1024, 2, &[e, l], large)
                }
                _ => format!("v{}:{}", i, "#".repeat(rng.below(30) as usize)).into_bytes(),
            };
            phys.push(attr_resident(t, &name, 0, flags, &content));
        } else {
            let n = place.len();
            // clusters of every extent
            let mut lens: Vec<u64> = (0..n).map(|_| rng.range(1, 4)).collect();
            if t == T_IALLOC && !ja(&c["iroot"]).is_empty() {
                lens = if n == 1 { vec![2] } else { vec![1; n] };
            }
            let known = attrs.iter().any(|o: &LAttr| o.t == t && o.name == name && o.content.is_empty());
            let empty = n == 1 && (x == 1 || t == T_DATA && !known && rng.chance(1, 5));
            let mut bytes = vec![];
            let mut ext_runs = vec![];
            for l in &lens {
                let mut runs = vec![];
                let mut left = if empty { 0 } else { *l };
                while left > 0 {
                    let k = rng.range(1, left);
                    runs.push(Run { lcn: Some(lcn), len: k });
                    for p in lcn * cs..(lcn + k) * cs {
                        bytes.push(vol.disk.byte(p));
                    }
                    lcn += k + rng.below(3);
                    left -= k;
                }
                ext_runs.push(runs);
            }
            // An extent may also begin at cluster 2^32 of the value, or at a multiple of that.
            if t == T_DATA && n > 1 && rng.chance(1, 8) {
                let e = rng.below(n as u64 - 1) as usize;
                let before: u64 = lens[..=e].iter().sum();
                let k = rng.range(1, 3) * (1 << 32) - before;
                hole = (before * cs, k * cs);
                ext_runs[e].push(Run { lcn: None, len: k });
                lens[e] += k;
            }
            if t == T_IALLOC && !ja(&c["iroot"]).is_empty() {
                let e = Ent { fref: i as u64 + 200, key: Fname::new(5, &u16s("a"), 1).bytes(), sub: None, last: false };
                let l = Ent { fref: 0, key: vec![], sub: None, last: true };
                let r = index_record(1024, 0, &[e, l], 3);
                bytes[..1024].copy_from_slice(&r);
                let mut off = 0;
                for run in ext_runs.iter().flatten() {
                    let k = (run.len * cs) as usize;
                    vol.disk.write(run.lcn.unwrap() * cs, &bytes[off..off + k]);
                    off += k;
                }
            }
            let cut = if t == T_IALLOC || empty { 0 } else { rng.below(cs) };
            bytes.truncate(bytes.len() - cut as usize);
            let size = bytes.len() as u64 + hole.1;
            content = bytes;
            let mut vcn = 0u64;
            let total: u64 = if empty { 0 } else { lens.iter().sum() };
            for (e, runs) in ext_runs.iter().enumerate() {
                let k: u64 = runs.iter().map(|r| r.len).sum();
                phys.push(attr_nonresident(&Nr {
                    ty: t,
                    name: name.clone(),
                    instance: 0,
                    flags,
                    lowest: vcn,
                    highest: (vcn + k).wrapping_sub(1),
                    runs: encode_runs(runs),
                    alloc: if e == 0 { total * cs } else { 0 },
                    size: if e == 0 { size } else { 0 },
                    init: if e == 0 { size } else { 0 },
                }));
                vcn += k;
            }
        }
        attrs.push(LAttr { t, name, res, place, content, gap: hole, phys });
    }
    // instance numbers
    let xs = |v: &Value| -> Vec<(usize, usize)> { ja(v).iter().map(|p| (ji(&p[0]) as usize, ji(&p[1]) as usize)).collect() };
    let mut layout: Vec<Vec<(usize, usize)>> = vec![xs(&c["base"])];
    for r in ja(&c["recs"]) {
        layout.push(xs(r));
    }
    let mut instance = std::collections::HashMap::new();
    let mut global = rng.below(3) as u16;
    for l in &layout {
        let mut ids: Vec<u16> = (0..l.len() as u16).collect();
        if round % 3 == 1 {
            rng.shuffle(&mut ids);
        }
        for (j, x) in l.iter().enumerate() {
            let id = if ji(&c["inst"]) == 0 { ids[j] } else { global };
            // also numbers that are alike in their low byte
            instance.insert(*x, if round % 3 == 2 { 7 + 256 * id } else { id });
            global += 1;
        }
    }
    // the list
    let mut list_attr = vec![];
    if list != 0 {
        let ents: Vec<ListEnt> = xs(&c["entries"])
            .iter()
            .map(|(a, e)| {
                let la = &attrs[a - 1];
                let p = &la.phys[e - 1];
                ListEnt {
                    ty: la.t,
                    name: la.name.clone(),
                    lowest: if la.res { 0 } else { r64(p, 16) },
                    fref: recs[la.place[e - 1]] | 1 << 48,
                    instance: instance[&(*a, *e)],
                }
            })
            .collect();
        // entries are as long as they say
        let most = *rng.pick(&[8u64, 40, 600, 5000, 65000]);
        let often = rng.below(4);
        let b = list_bytes_padded(&ents, &ents.iter().map(|_| if rng.chance(often, 12) { rng.below(most) as usize } else { 0 }).collect::<Vec<_>>());
        let inst = instance[&(0, 1)];
        let others: usize = layout[0].iter().filter(|x| x.0 != 0).map(|x| attrs[x.0 - 1].phys[x.1 - 1].len()).sum();
        list_attr = if list == 1 && b.len() + others + 24 + Rec::attrs_off(frs as usize) + 8 <= frs as usize {
            attr_resident(T_LIST, &[], inst, 0, &b)
        } else {
            let k = (b.len() as u64 + cs - 1) / cs;
            // fragmented as well
            let mut runs = vec![];
            let mut i = 0;
            while i < k {
                let most = 1 << rng.below(6);
                let n = if runs.len() >= 3 { k - i } else { rng.range(1, most.min(k - i)) };
                vol.disk.write(lcn * cs, &b[(i * cs) as usize..usize::min(b.len(), ((i + n) * cs) as usize)]);
                runs.push(Run { lcn: Some(lcn), len: n });
                lcn += n + rng.below(2);
                i += n;
            }
            nr_simple(T_LIST, &[], inst, cs, &runs, b.len() as u64, b.len() as u64)
        };
    }
    let mut phys = vec![];
    for (ri, l) in layout.iter().enumerate() {
        let mut rec = Rec::new(recs[ri]);
        // Other flags, also of a record that is not in use (any more), say nothing about its being a directory.
        rec.flags = *rng.pick(&[1u16, 1, 5, 9, 13, 0]) | if jb(&c["dir"]) { 2 } else { 0 };
        if ri > 0 {
            rec.base = recs[0] | 1 << 48;
            rec.flags = 1;
        }
        let mut off = Rec::attrs_off(frs as usize);
        let mut ph = vec![];
        for x in l {
            let mut b = if x.0 == 0 { list_attr.clone() } else { attrs[x.0 - 1].phys[x.1 - 1].clone() };
            w16(&mut b, 14, instance[x]);
            let name = if x.0 == 0 { vec![] } else { attrs[x.0 - 1].name.clone() };
            ph.push((r32(&b, 0), name, instance[x], off, b.clone()));
            off += b.len();
            rec.attrs.push(b);
        }
        phys.push(ph);
        vol.put(&rec);
    }
    File { rec: recs[0], vol, recs, attrs, phys, nm, style: round }
}

pub fn read_all(a: &NtfsAttribute, fs: &mut Disk, chunk: usize) -> Result<Vec<u8>, String> {
    let mut v = a.value(fs).map_err(|e| format!("value: {}", ename(&e)))?;
    let mut out = vec![];
    let mut buf = vec![0u8; chunk];
    loop {
        let n = v.read(fs, &mut buf).map_err(|e| format!("read at {}: {}", out.len(), ename(&e)))?;
        if n == 0 {
            return if out.len() as u64 == v.len() { Ok(out) } else { Err(format!("value of length {} delivers {} bytes", v.len(), out.len())) };
        }
        out.extend_from_slice(&buf[..n]);
    }
}

/// What a value has in front of its hole and behind it.
fn read_around(a: &NtfsAttribute, fs: &mut Disk, gap: (u64, u64)) -> Result<Vec<u8>, String> {
    let mut v = a.value(fs).map_err(|e| format!("value: {}", ename(&e)))?;
    let mut out = vec![0; (v.len() - gap.1) as usize];
    let (x, y) = out.split_at_mut(gap.0 as usize);
    v.read_exact(fs, x).map_err(|e| format!("read in front of the hole: {}", ename(&e)))?;
    v.seek(fs, std::io::SeekFrom::Start(gap.0 + gap.1)).map_err(|e| format!("seek behind the hole: {}", ename(&e)))?;
    v.read_exact(fs, y).map_err(|e| format!("read behind the hole: {}", ename(&e)))?;
    Ok(out)
}

/// Which logical attribute is this? (by type, name and complete value)
fn identify(f: &File, a: &NtfsAttribute, fs: &mut Disk, chunk: usize) -> Result<usize, String> {
    let ty = a.ty().map_err(|e| ename(&e))? as u32;
    let name: Vec<u16> = a.name().map_err(|e| ename(&e))?.u16_iter().collect();
    // (what cannot be read as a whole is known by its length)
    let big = f.attrs.iter().find(|x| x.gap.1 != 0 && x.t == ty && x.name == name && x.content.len() as u64 + x.gap.1 == a.value_length());
    let val = match big {
        None => read_all(a, fs, chunk),
        Some(x) => read_around(a, fs, x.gap),
    }
    .map_err(|e| format!("attribute {:#x} {:?}: {}", ty, String::from_utf16_lossy(&name), e))?;
    let m: Vec<usize> = (0..f.attrs.len()).filter(|i| f.attrs[*i].t == ty && f.attrs[*i].name == name && f.attrs[*i].content == val).collect();
    match m.len() {
        1 => {
            if a.is_resident() != f.attrs[m[0]].res || a.value_length() != val.len() as u64 + f.attrs[m[0]].gap.1 {
                return Err(format!("attribute {} reports residency {} and length {}", m[0] + 1, a.is_resident(), a.value_length()));
            }
            Ok(m[0])
        }
        0 => Err(format!("attribute {:#x} {:?} with a value of {} bytes is none of the file's attributes", ty, String::from_utf16_lossy(&name), val.len())),
        _ => Err("ambiguous test case".into()),
    }
}

fn iterate(f: &File, file: &NtfsFile, fs: &mut Disk, rng: &mut Rng, rep: &mut Report) -> Result<(), String> {
    let chunk = *rng.pick(&[7usize, 512, 700, 4096]);
    let mut seen = vec![false; f.attrs.len()];
    let mut it = file.attributes();
    let mut order = vec![];
    let mut n = 0;
    while let Some(item) = it.next(fs) {
        n += 1;
        if n > 40 {
            return Err("iteration does not end".into());
        }
        let item = item.map_err(|e| format!("attributes(): {}", ename(&e)))?;
        let a = item.to_attribute().map_err(|e| format!("to_attribute: {}", ename(&e)))?;
        let i = identify(f, &a, fs, chunk)?;
        if seen[i] {
            return Err(format!("attribute {} is yielded twice", i + 1));
        }
        seen[i] = true;
        order.push(i);
        rep.add("yielded", 1);
        if f.attrs[i].gap.1 > 0 {
            rep.add("yielded_huge", 1);
        }
        if f.attrs[i].place.iter().any(|p| *p != 0) {
            rep.add("yielded_outside_base", 1);
        }
        if f.attrs[i].place.len() > 1 {
            rep.add("yielded_split", 1);
        }
    }
    if let Some(i) = seen.iter().position(|s| !s) {
        return Err(format!("attribute {} is not yielded", i + 1));
    }
    if it.next(fs).is_some() {
        return Err("iteration goes on after its end".into());
    }
    // the attached iterator must do the same
    let items: Vec<_> = file.attributes().attach(fs).collect();
    let mut again = vec![];
    for item in items {
        let item = item.map_err(|e| format!("attached attributes(): {}", ename(&e)))?;
        let a = item.to_attribute().map_err(|e| format!("to_attribute: {}", ename(&e)))?;
        again.push(identify(f, &a, fs, chunk)?);
    }
    if again != order {
        return Err(format!("the attached iterator yields {:?} instead of {:?}", again, order));
    }
    Ok(())
}

fn raw(f: &File, ntfs: &Ntfs, fs: &mut Disk, rep: &mut Report) -> Result<(), String> {
    for (ri, want) in f.phys.iter().enumerate() {
        let file = ntfs.file(fs, f.recs[ri]).map_err(|e| format!("record: {}", ename(&e)))?;
        let at = f.vol.mft_pos(f.recs[ri] * f.vol.frs).unwrap();
        let mut it = file.attributes_raw();
        for (k, w) in want.iter().enumerate() {
            let a = match it.next() {
                None => return Err(format!("raw iteration of record {} ends after {} of {} attributes", ri, k, want.len())),
                Some(a) => a.map_err(|e| format!("raw: {}", ename(&e)))?,
            };
            let name: Vec<u16> = a.name().map_err(|e| ename(&e))?.u16_iter().collect();
            let got = (a.ty().map_err(|e| ename(&e))? as u32, name, a.instance(), a.position().value().map(|p| p.get()), a.attribute_length(), a.is_resident());
            let exp = (w.0, w.1.clone(), w.2, Some(at + w.3 as u64), w.4.len() as u32, w.4[8] == 0);
            if got != exp {
                return Err(format!("raw attribute {} of record {}: {:?} instead of {:?}", k, ri, got, exp));
            }
            rep.add("raw", 1);
        }
        if it.next().is_some() || it.next().is_some() {
            return Err(format!("raw iteration of record {} yields more than {} attributes", ri, want.len()));
        }
    }
    Ok(())
}

fn set(v: &Value) -> Vec<usize> {
    ja(v).iter().map(|x| ji(x) as usize - 1).collect()
}

fn lookups(c: &Value, f: &File, ntfs: &Ntfs, file: &NtfsFile, fs: &mut Disk, rep: &mut Report) -> Result<(), String> {
    let judge = |what: String, got: Option<usize>, want: &[usize]| -> Result<(), String> {
        match got {
            None if want.is_empty() => Ok(()),
            Some(i) if want.contains(&i) => Ok(()),
            g => Err(format!("{} gives {:?}, expected {:?} (attribute numbers from 0)", what, g, want)),
        }
    };
    for q in ja(&c["data"]) {
        let Ok(name) = String::from_utf16(&f.nm[ji(&q[0]) as usize]) else { continue };
        let got = match file.data(fs, &name) {
            None => None,
            Some(item) => {
                let item = item.map_err(|e| format!("data({:?}): {}", name, ename(&e)))?;
                let a = item.to_attribute().map_err(|e| ename(&e))?;
                Some(identify(f, &a, fs, 512)?)
            }
        };
        judge(format!("data({:?})", name), got, &set(&q[1]))?;
        rep.add("data_lookups", 1);
        rep.add("data_hits", got.is_some() as u64);
    }
    for q in ja(&c["names"]) {
        let ns = match ji(&q[0]) {
            0 => Some(NtfsFileNamespace::Posix),
            1 => Some(NtfsFileNamespace::Win32),
            2 => Some(NtfsFileNamespace::Dos),
            3 => Some(NtfsFileNamespace::Win32AndDos),
            _ => None,
        };
        let par = if ji(&q[1]) == 9 { None } else { Some(parent_number(ji(&q[1]), f.style)) };
        let got = match file.name(fs, ns, par) {
            None => None,
            Some(n) => {
                let n = n.map_err(|e| format!("name({:?}, {:?}): {}", ns, par, ename(&e)))?;
                Some(n.name().to_string_lossy()[1..].parse::<usize>().map_err(|_| "name".to_string())?)
            }
        };
        judge(format!("name({:?}, {:?})", ns, par), got, &set(&q[2]))?;
        rep.add("name_lookups", 1);
        rep.add("name_hits", got.is_some() as u64);
    }
    // standard information
    let want = set(&c["std"]);
    let got = match file.info() {
        Ok(i) => Some((i.creation_time().nt_timestamp() - 132539328000000000) as usize),
        Err(ntfs::NtfsError::AttributeNotFound { .. }) => None,
        Err(e) => return Err(format!("info(): {}", ename(&e))),
    };
    judge("info()".into(), got, &want)?;
    rep.add("info_lookups", 1);
    if f.rec == 3 {
        let got = match ntfs.volume_name(fs) {
            None => None,
            Some(n) => Some(n.map_err(|e| format!("volume_name: {}", ename(&e)))?.name().to_string_lossy()[5..].parse::<usize>().map_err(|_| "label".to_string())?),
        };
        judge("volume_name()".into(), got, &set(&c["volname"]))?;
        let got = match ntfs.volume_info(fs) {
            Ok(i) => Some(i.minor_version() as usize),
            Err(ntfs::NtfsError::AttributeNotFound { .. }) => None,
            Err(e) => return Err(format!("volume_info: {}", ename(&e))),
        };
        judge("volume_info()".into(), got, &set(&c["volinfo"]))?;
        rep.add("volume_lookups", 2);
    }
    // directory index
    let (root, alloc) = (set(&c["iroot"]), set(&c["ialloc"]));
    let large = root.len() == 1 && f.attrs[root[0]].content[28] & 1 == 1;
    let want: Option<Vec<u64>> = if !jb(&c["dir"]) || root.is_empty() || (large && alloc.is_empty()) {
        None
    } else if large {
        Some(vec![alloc[0] as u64 + 200, root[0] as u64 + 100])
    } else {
        Some(vec![root[0] as u64 + 100])
    };
    match (file.directory_index(fs), want) {
        (Err(e), None) => {
            let not_dir = ename(&e) == "NotADirectory";
            if not_dir != !jb(&c["dir"]) {
                return Err(format!("directory_index fails with {}", ename(&e)));
            }
            rep.add("directory_index_rejected", 1)
        }
        (Ok(_), None) => return Err("directory_index succeeds".into()),
        (Err(e), Some(_)) => return Err(format!("directory_index: {}", ename(&e))),
        (Ok(index), Some(w)) => {
            let mut it = index.entries();
            let mut got = vec![];
            while let Some(e) = it.next(fs) {
                got.push(e.map_err(|e| format!("index entry: {}", ename(&e)))?.file_reference().file_record_number());
                if got.len() > 9 {
                    return Err("directory iteration does not end".into());
                }
            }
            if got != w {
                return Err(format!("the directory index has entries {:?}, expected {:?}", got, w));
            }
            let mut fi = index.finder();
            let g = NtfsFileNameIndex::find(&mut fi, ntfs, fs, "M");
            if !matches!(g, Some(Ok(ref e)) if e.file_reference().file_record_number() == root[0] as u64 + 100) {
                return Err("the entry of the index root is not found".into());
            }
            rep.add("directory_index", 1);
        }
    }
    Ok(())
}

pub fn replay(path: &str, out: &str, seed: u64, rounds: u64) {
    let cases = read_ndjson(path);
    let rep = parallel(&cases, |ci, c, rep| {
        for round in 0..rounds {
            let style = round + ci as u64;
            let mut rng = Rng::new(seed ^ (ci as u64) << 12 ^ round << 48);
            let f = build(c, &mut rng, style);
            let mut fs = f.vol.disk.fork();
            fs.budget = 2_000_000;
            let r = guard(|| -> Result<(), String> {
                let mut ntfs = Ntfs::new(&mut fs).map_err(|e| ename(&e))?;
                if !ja(&c["data"]).is_empty() || !ja(&c["iroot"]).is_empty() {
                    ntfs.read_upcase_table(&mut fs).map_err(|e| format!("upcase: {}", ename(&e)))?;
                }
                raw(&f, &ntfs, &mut fs, rep)?;
                let file = ntfs.file(&mut fs, f.rec).map_err(|e| format!("record: {}", ename(&e)))?;
                iterate(&f, &file, &mut fs, &mut rng, rep)?;
                lookups(c, &f, &ntfs, &file, &mut fs, rep)
            });
            if let Ok(Err(m)) | Err(m) = r {
                rep.violation("attributes", json!({"message": m, "case": c, "style": style, "records": f.recs}));
            }
        }
        rep.add("files", 1);
        if ci % 2500 == 7 {
            rep.sample(3, || c.clone());
        }
    });
    rep.write(out);
}
