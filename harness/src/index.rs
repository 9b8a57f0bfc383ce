//! Index trees (Index.tla, C09 and C10) and references to their nodes (C12).
use crate::disk::{Acc, Disk};
use crate::img::*;
use crate::util::*;
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::{NtfsIndexAllocation, NtfsIndexRoot};
use ntfs::types::Vcn;
use ntfs::{Ntfs, NtfsAttributeType, NtfsIndexEntryFlags};
use serde_json::{json, Value};
use std::sync::OnceLock;

pub fn table(style: usize) -> &'static Vec<u16> {
    static T: OnceLock<Vec<Vec<u16>>> = OnceLock::new();
    &T.get_or_init(|| {
        let a = {
            let mut t = ascii_upcase();
            t[0xE9] = 0xC9;
            t[0x3B1] = 0x391;
            t
        };
        // letters in reverse order, digits above everything, case folded towards small letters
        let mut b: Vec<u16> = (0..=65535u16).collect();
        for i in 0..26u16 {
            b[(0x41 + i) as usize] = 0x7A - i;
            b[(0x61 + i) as usize] = 0x7A - i;
        }
        for i in 0..10u16 {
            b[(0x30 + i) as usize] = 0xFF00 + i;
        }
        b[0xD83D] = 0x21;
        vec![a, b]
    })[style]
}
pub fn fold(t: &[u16], s: &[u16]) -> Vec<u16> {
    s.iter().map(|c| t[*c as usize]).collect()
}

/// `n` names in ascending order under the table, no two equal under it.
fn names(rng: &mut Rng, n: usize, t: &[u16], maxlen: u64) -> Vec<Vec<u16>> {
    let alpha: Vec<Vec<u16>> = ["a", "B", "c", "D", "x", "Y", "1", "_", "\u{e9}", "\u{3b1}", "\u{1F600}", "z", "$", "~", "-", " ", "."].iter().map(|s| u16s(s)).collect();
    let mut v: Vec<Vec<u16>> = vec![];
    let long = rng.chance(1, 5);
    while v.len() < n {
        let l = if long { rng.range(1, maxlen) } else { rng.range(1, 3.min(maxlen)) };
        let mut s: Vec<u16> = vec![];
        while (s.len() as u64) < l {
            s.extend(rng.pick(&alpha));
        }
        // a common prefix once in a while
        if !v.is_empty() && rng.chance(1, 3) {
            let p = rng.pick(&v).clone();
            if p.len() < maxlen as usize / 2 {
                s = [p, s].concat();
            }
        }
        // or another name with a space or dot behind it
        if !v.is_empty() && rng.chance(1, 6) {
            s = rng.pick(&v).clone();
            if s.len() < maxlen as usize {
                s.extend(u16s(rng.pick(&[" ", ".", "  ", "\u{a0}"])));
            }
        }
        if s.len() <= maxlen.max(3) as usize && !v.iter().any(|w| fold(t, w) == fold(t, &s)) {
            v.push(s);
        }
    }
    v.sort_by(|a, b| fold(t, a).cmp(&fold(t, b)));
    v
}
fn recase(rng: &mut Rng, s: &[u16]) -> String {
    let s = String::from_utf16(s).unwrap();
    s.chars()
        .map(|c| {
            if c.is_ascii_alphabetic() && rng.chance(1, 2) {
                if c.is_ascii_lowercase() {
                    c.to_ascii_uppercase()
                } else {
                    c.to_ascii_lowercase()
                }
            } else if c == '\u{e9}' && rng.chance(1, 2) {
                c
            } else {
                c
            }
        })
        .collect()
}

pub struct Tree {
    pub vol: Vol,
    pub irs: u64,
    /// bytes per VCN unit
    pub unit: u64,
    /// slot of every node (node 1 is the root and has none)
    pub slot: Vec<u64>,
    /// the slots are so far apart, with holes between them
    pub stride: u64,
    pub slots: u64,
    /// device position of every 512-byte block of the allocation
    pub blocks: Vec<u64>,
    /// 2n+1 names; key k is names[2k-1], 1-based ask q is names[q-1]
    pub names: Vec<Vec<u16>>,
    pub style: usize,
    pub root: u64,
    pub desc: Value,
}

impl Tree {
    pub fn vcn(&self, node: usize) -> i64 {
        (self.slot[node] * self.stride * self.irs / self.unit) as i64
    }
    pub fn node_of(&self, pos: u64) -> Option<usize> {
        let b = self.blocks.iter().position(|p| *p <= pos && pos < p + 512)? as u64;
        let s = b * 512 / self.irs;
        self.slot.iter().skip(2).position(|x| *x == s).map(|i| i + 2)
    }
}

pub fn fref(key: i64) -> u64 {
    (100 + key as u64) | ((key as u64 % 7 + 1) << 48)
}

pub fn build(nodes: &[Vec<(i64, i64)>], n: usize, rng: &mut Rng) -> Tree {
    let style = rng.below(2) as usize;
    let t = table(style);
    let frs = if nodes[0].len() > 4 { 4096 } else { *rng.pick(&[1024u64, 4096]) };
    let widest = nodes.iter().map(|x| x.len()).max().unwrap();
    let mut irs = if widest > 6 { 4096 } else { *rng.pick(&[1024u64, 2048, 4096, 4096]) };
    let mut cs = *rng.pick(&[512u64, 512, 1024, 4096, 8192]);
    if rng.chance(1, 12) {
        // large clusters and records of at least their size
        (cs, irs) = *rng.pick(&[(8192u64, 8192u64), (16384, 16384), (8192, 16384), (16384, 65536)]);
    }
    let unit = if cs > irs { 512 } else { cs };
    let clusters = 1u64 << 13;
    let mut vol = Vol::new(cs, 512, frs, clusters, vec![Run { lcn: Some(16), len: 64 * frs / cs }]);
    vol.vary_sectors(rng);
    vol.put_mft_record();
    let up = 16 + 64 * frs / cs + 2;
    vol.put_upcase(up, t);
    let maxlen = if irs == 1024 || frs == 1024 { 12 } else { 40 };
    // or as long as they may be in these nodes
    let wide_sub = nodes[1..].iter().map(|x| x.len()).max().unwrap_or(0) as u64;
    let fits = |room: u64, n: u64| if n == 0 { 255 } else { (room / n).saturating_sub(104) / 2 };
    let most = fits(irs - 120, wide_sub).min(fits(frs - 720, nodes[0].len() as u64)).min(255);
    let maxlen = if most > maxlen && rng.chance(1, 2) { most } else { maxlen };
    let nm = names(rng, 2 * n + 1, t, maxlen);
    // slots
    let subs = nodes.len() - 1;
    // Once in a while far apart: VCNs alike in their low 7, 16 or 32 bits.
    let stride = if cs <= irs && subs <= 24 && rng.chance(1, 6) { *rng.pick(&[128u64, 1 << 16, 1 << 32]) } else { 1 };
    let slots = subs as u64 + rng.below(3);
    let mut perm: Vec<u64> = (0..slots.max(1)).collect();
    if rng.chance(3, 4) {
        rng.shuffle(&mut perm);
    }
    let mut slot = vec![0, 0];
    slot.extend(perm.iter().take(subs));
    // allocation
    let bytes = slots * irs;
    let mut total = (bytes + cs - 1) / cs;
    let mut lcn = up + 131072 / cs + 3;
    let mut runs: Vec<Run> = vec![];
    let frag = rng.below(3);
    while total > 0 {
        let k = match frag {
            0 => total,
            1 => u64::min(total, u64::max(1, bytes / cs / 24)),
            _ => rng.range(1, total),
        };
        runs.push(Run { lcn: Some(lcn), len: k });
        lcn += k + rng.range(1, 4);
        total -= k;
    }
    if rng.chance(1, 2) && runs.len() > 1 {
        // out of physical order
        let mut pos: Vec<Run> = runs.clone();
        rng.shuffle(&mut pos);
        let mut at = up + 131072 / cs + 3;
        let mut place = vec![0; runs.len()];
        for p in &pos {
            let i = runs.iter().position(|r| r == p).unwrap();
            place[i] = at;
            at += p.len + 1;
        }
        for (r, p) in runs.iter_mut().zip(place) {
            r.lcn = Some(p);
        }
        lcn = at + 10;
    }
    if stride > 1 {
        let k = irs / cs;
        runs = (0..slots).flat_map(|i| [Run { lcn: Some(lcn + i * (k + 1)), len: k }, Run { lcn: None, len: (stride - 1) * k }]).collect();
        runs.pop();
    }
    let bytes = if slots == 0 { 0 } else { ((slots - 1) * stride + 1) * irs };
    let mut blocks = vec![];
    for r in runs.iter().filter(|r| r.lcn.is_some()) {
        for b in 0..r.len * cs / 512 {
            blocks.push(r.lcn.unwrap() * cs + b * 512);
        }
    }
    // Names of every kind are in an index.
    let seed = rng.below(8);
    // Behind the last entry of a node may lie what is left of former ones; no part of the node.
    let stale = rng.chance(1, 3);
    let room = |i: usize| if i == 0 { 420 } else { irs as usize - 64 - irs as usize / 256 };
    let ents = |i: usize| -> Vec<Ent> {
        let mut v: Vec<Ent> = nodes[i]
            .iter()
            .map(|(k, s)| Ent {
                fref: if *k == 0 { 0 } else { fref(*k) },
                key: if *k == 0 { vec![] } else { Fname::new(5, &nm[2 * *k as usize - 1], (*k as u64 + i as u64 + seed) as u8 % 4).bytes() },
                sub: if *s == 0 { None } else { Some((slot[*s as usize] * stride * irs / unit) as i64) },
                last: *k == 0,
            })
            .collect();
        let old = Ent { fref: fref(1), key: Fname::new(5, &nm[(seed as usize + i) % nm.len()], 1).bytes(), sub: None, last: false };
        if stale && (i as u64 + seed) % 3 > 0 && v.iter().map(|e| e.bytes().len()).sum::<usize>() + old.bytes().len() <= room(i) {
            v.push(old);
        }
        v
    };
    for i in 1..nodes.len() {
        let r = index_record(irs as usize, (slot[i + 1] * stride * irs / unit) as i64, &ents(i), 1 + i as u16);
        for (j, c) in r.chunks(512).enumerate() {
            vol.disk.write(blocks[(slot[i + 1] * irs / 512) as usize + j], c);
        }
    }
    let large = subs > 0 || rng.chance(1, 4);
    let cpir = if cs > irs { (irs / 512) as i8 } else { (irs / cs) as i8 };
    let mut root = Rec::dir(24 + rng.below(20));
    let rootval = index_root_value(irs as u32, cpir, &ents(0), large);
    let i30 = u16s("$I30");
    root.attrs.push(attr_resident(T_STD, &[], 0, 0, &[0; 72]));
    // sometimes the allocation lives in extension records
    let split = large && (rng.chance(1, 3) || stride > 1 && subs > 8);
    if split {
        let cut = 1.max(runs.len() / 2);
        let parts: Vec<Vec<Run>> = if runs.len() > 1 && rng.chance(1, 2) { vec![runs[..cut].to_vec(), runs[cut..].to_vec()] } else { vec![runs.clone()] };
        let alloc: u64 = runs.iter().map(|r| r.len * cs).sum();
        let mut list = vec![
            ListEnt { ty: T_STD, name: vec![], lowest: 0, fref: root.num | 1 << 48, instance: 0 },
            ListEnt { ty: T_IROOT, name: i30.clone(), lowest: 0, fref: root.num | 1 << 48, instance: 2 },
        ];
        let mut vcn = 0;
        for (i, p) in parts.iter().enumerate() {
            let num = 48 + i as u64;
            let k: u64 = p.iter().map(|r| r.len).sum();
            list.push(ListEnt { ty: T_IALLOC, name: i30.clone(), lowest: vcn, fref: num | 1 << 48, instance: 1 });
            let mut x = Rec::new(num);
            x.base = root.num | 1 << 48;
            x.attrs.push(attr_nonresident(&Nr {
                ty: T_IALLOC,
                name: i30.clone(),
                instance: 1,
                flags: 0,
                lowest: vcn,
                highest: (vcn + k).wrapping_sub(1),
                runs: encode_runs(p),
                alloc: if i == 0 { alloc } else { 0 },
                size: if i == 0 { bytes } else { 0 },
                init: if i == 0 { bytes } else { 0 },
            }));
            vcn += k;
            vol.put(&x);
        }
        root.attrs.push(attr_resident(T_LIST, &[], 5, 0, &list_bytes(&list)));
    }
    root.attrs.push(attr_resident(T_IROOT, &i30, 2, 0, &rootval));
    if large && !split {
        root.attrs.push(nr_simple(T_IALLOC, &i30, 3, cs, &runs, bytes, bytes));
    }
    vol.put(&root);
    let desc = json!({"cluster": cs, "record": irs, "slots": slot, "stride": stride, "runs": format!("{:?}", runs), "split": split, "table": style,
        "names": nm.iter().map(|s| String::from_utf16_lossy(s)).collect::<Vec<_>>()});
    let _ = lcn;
    Tree { vol, irs, unit, slot, stride, slots, blocks, names: nm, style, root: root.num, desc }
}

pub fn parse(c: &Value) -> (Vec<Vec<(i64, i64)>>, usize) {
    let nodes = ja(&c["nodes"]).iter().map(|n| ja(n).iter().map(|e| (ji(&e["key"]), ji(&e["sub"]))).collect()).collect();
    (nodes, ji(&c["n"]) as usize)
}

type Index<'n, 'f> = ntfs::NtfsIndex<'n, 'f, NtfsFileNameIndex>;

fn check_entry(t: &Tree, e: &ntfs::NtfsIndexEntry<NtfsFileNameIndex>) -> Result<i64, String> {
    let r = e.file_reference();
    let k = r.file_record_number() as i64 - 100;
    let key = match e.key() {
        None => return Err("an entry without key is delivered".into()),
        Some(k) => k.map_err(|e| format!("key: {}", ename(&e)))?,
    };
    if k < 1 || k as usize * 2 > t.names.len() {
        return Err(format!("an entry with file record number {} is delivered", k + 100));
    }
    let name: Vec<u16> = key.name().u16_iter().collect();
    if name != t.names[2 * k as usize - 1] || r.sequence_number() as u64 != fref(k) >> 48 {
        return Err(format!("entry {} has another name or sequence number", k));
    }
    Ok(k)
}

fn check_iter(t: &Tree, index: &Index, n: usize, fs: &mut Disk) -> Result<(), String> {
    let mut it = index.entries();
    let mut got = vec![];
    while let Some(e) = it.next(fs) {
        let e = e.map_err(|e| format!("entry {}: {}", got.len() + 1, ename(&e)))?;
        got.push(check_entry(t, &e)?);
        if got.len() > n + 3 {
            break;
        }
    }
    let want: Vec<i64> = (1..=n as i64).collect();
    if got != want {
        return Err(format!("iteration yields {:?}, expected {:?}", got, want));
    }
    for _ in 0..3 {
        if it.next(fs).is_some() {
            return Err("iteration goes on after its end".into());
        }
    }
    Ok(())
}

fn check_find(t: &Tree, c: &Value, index: &Index, ntfs: &Ntfs, n: usize, fs: &mut Disk, rng: &mut Rng, rep: &mut Report) -> Result<(), String> {
    let level: Vec<i64> = ja(&c["level"]).iter().map(ji).collect();
    let mut asks: Vec<usize> = (1..=2 * n + 1).chain(1..=2 * n + 1).collect();
    rng.shuffle(&mut asks);
    let mut finder = index.finder();
    let mut it = index.entries();
    let mut seen = 0;
    for q in asks {
        if rng.chance(1, 4) && seen < n {
            // an iteration in between
            let e = it.next(fs).ok_or("interleaved iteration ended early")?.map_err(|e| ename(&e))?;
            seen += 1;
            if check_entry(t, &e)? != seen as i64 {
                return Err("an interleaved iteration is out of order".into());
            }
        }
        let name = recase(rng, &t.names[q - 1]);
        fs.log = Some(vec![]);
        let got = match NtfsFileNameIndex::find(&mut finder, ntfs, fs, &name) {
            None => None,
            Some(e) => Some(check_entry(t, &e.map_err(|e| format!("find {:?}: {}", name, ename(&e)))?)?),
        };
        let want = if q % 2 == 0 { Some(q as i64 / 2) } else { None };
        let log = fs.log.take().unwrap();
        if got != want {
            return Err(format!("find {:?} gives {:?}, expected {:?}", name, got, want));
        }
        let mut nodes: Vec<usize> = log.iter().filter_map(|a| if let Acc::Read(p, l) = a { if *l > 0 { t.node_of(*p) } else { None } } else { None }).collect();
        nodes.sort();
        nodes.dedup();
        let mut lv: Vec<i64> = nodes.iter().map(|x| level[x - 1]).collect();
        lv.sort();
        if lv.windows(2).any(|w| w[0] == w[1]) {
            return Err(format!("find {:?} reads several nodes of one level: nodes {:?}", name, nodes));
        }
        rep.add("finds", 1);
        rep.add("subnodes_read", nodes.len() as u64);
        rep.add("hits", got.is_some() as u64);
    }
    Ok(())
}

/// Every node through its number, all nodes in storage order, and the root's own entries.
fn check_nodes(t: &Tree, nodes: &[Vec<(i64, i64)>], ntfs: &Ntfs, fs: &mut Disk, rep: &mut Report) -> Result<(), String> {
    let same = |i: usize, es: Vec<(Option<i64>, Option<i64>, bool)>| -> Result<(), String> {
        let want: Vec<(Option<i64>, Option<i64>, bool)> =
            nodes[i].iter().map(|(k, s)| (if *k == 0 { None } else { Some(*k) }, if *s == 0 { None } else { Some(t.vcn(*s as usize)) }, *k == 0)).collect();
        if es != want {
            return Err(format!("node {} has entries {:?}, expected {:?}", i + 1, es, want));
        }
        Ok(())
    };
    macro_rules! list {
        ($it:expr) => {{
            let mut v = vec![];
            for e in $it {
                let e = e.map_err(|e| ename(&e))?;
                let k = match e.key() {
                    None => None,
                    Some(_) => Some(check_entry(t, &e)?),
                };
                let s = match e.subnode_vcn() {
                    None => None,
                    Some(v) => Some(v.map_err(|e| ename(&e))?.value()),
                };
                v.push((k, s, e.flags().contains(NtfsIndexEntryFlags::LAST_ENTRY)));
                if v.len() > 50 {
                    break;
                }
            }
            v
        }};
    }
    let file = ntfs.file(fs, t.root).map_err(|e| ename(&e))?;
    let mut it = file.attributes();
    while let Some(item) = it.next(fs) {
        let item = item.map_err(|e| ename(&e))?;
        let a = item.to_attribute().map_err(|e| ename(&e))?;
        if a.ty().map_err(|e| ename(&e))? == NtfsAttributeType::IndexRoot {
            let r = a.resident_structured_value::<NtfsIndexRoot>().map_err(|e| format!("root: {}", ename(&e)))?;
            if r.index_record_size() as u64 != t.irs {
                return Err("index record size".into());
            }
            same(0, list!(r.entries::<NtfsFileNameIndex>().map_err(|e| ename(&e))?))?;
        }
        if a.ty().map_err(|e| ename(&e))? == NtfsAttributeType::IndexAllocation {
            let al = a.structured_value::<_, NtfsIndexAllocation>(fs).map_err(|e| format!("allocation: {}", ename(&e)))?;
            for i in (1..nodes.len()).rev() {
                let v = t.vcn(i + 1);
                let r = al.record_from_vcn(fs, t.irs as u32, Vcn::from(v)).map_err(|e| format!("node {} at {}: {}", i + 1, v, ename(&e)))?;
                if r.vcn().value() != v {
                    return Err(format!("the record at {} says {}", v, r.vcn().value()));
                }
                if r.has_subnodes() != nodes[i].iter().any(|e| e.1 != 0) {
                    return Err("has_subnodes".into());
                }
                same(i, list!(r.entries::<NtfsFileNameIndex>().map_err(|e| ename(&e))?))?;
                rep.add("nodes_by_number", 1);
            }
            if t.stride == 1 && t.slots as usize == nodes.len() - 1 {
                // every slot is used: storage order
                let mut order: Vec<(u64, usize)> = (1..nodes.len()).map(|i| (t.slot[i + 1], i)).collect();
                order.sort();
                let mut recs = al.records(t.irs as u32);
                for (_, i) in order {
                    let r = recs.next(fs).ok_or("records() ends early")?.map_err(|e| format!("records(): {}", ename(&e)))?;
                    same(i, list!(r.entries::<NtfsFileNameIndex>().map_err(|e| ename(&e))?))?;
                    rep.add("nodes_in_order", 1);
                }
                if recs.next(fs).is_some() || recs.next(fs).is_some() {
                    return Err("records() goes on after the last record".into());
                }
                let v = al.records(t.irs as u32).attach(fs).collect::<Vec<_>>();
                if v.len() != nodes.len() - 1 || v.iter().any(|r| r.is_err()) {
                    return Err("attached records() differs".into());
                }
            }
        }
    }
    Ok(())
}

pub fn replay(path: &str, out: &str, seed: u64, rounds: u64, mode: &str) {
    let cases = read_ndjson(path);
    let rep = parallel(&cases, |ci, c, rep| {
        let (nodes, n) = parse(c);
        for round in 0..rounds {
            let mut rng = Rng::new(seed ^ (ci as u64) << 12 ^ round << 48);
            let t = build(&nodes, n, &mut rng);
            let mut fs = t.vol.disk.fork();
            fs.budget = 5_000_000;
            let r = guard(|| -> Result<(), String> {
                let mut ntfs = Ntfs::new(&mut fs).map_err(|e| ename(&e))?;
                ntfs.read_upcase_table(&mut fs).map_err(|e| format!("upcase: {}", ename(&e)))?;
                let file = ntfs.file(&mut fs, t.root).map_err(|e| format!("record: {}", ename(&e)))?;
                let index = file.directory_index(&mut fs).map_err(|e| format!("directory_index: {}", ename(&e)))?;
                match mode {
                    "iter" => check_iter(&t, &index, n, &mut fs),
                    "find" => check_find(&t, c, &index, &ntfs, n, &mut fs, &mut rng, rep),
                    _ => check_nodes(&t, &nodes, &ntfs, &mut fs, rep),
                }
            });
            if let Ok(Err(m)) | Err(m) = r {
                rep.violation(&format!("index-{}", mode), json!({"message": m, "tree": c, "volume": t.desc}));
            }
            rep.add("trees", 1);
            rep.add("subnodes", nodes.len() as u64 - 1);
            rep.add("keys", n as u64);
        }
        if ci % 500 == 7 {
            rep.sample(3, || c.clone());
        }
    });
    rep.write(out);
}
