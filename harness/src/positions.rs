//! Positions of objects on the device (Position.tla, C18): every layout of the specification is built as a volume, and every position
//! the library reports is compared with the map of the specification.
use crate::disk::Disk;
use crate::img::*;
use crate::util::*;
use ntfs::attribute_value::NtfsAttributeValue;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::{NtfsPosition, Vcn};
use ntfs::*;
use serde_json::{json, Value};
use std::io::SeekFrom;

/// An index of plain keys that remember the place they were given.
#[derive(Clone, Debug)]
struct Plain;
#[derive(Debug)]
struct Key(Vec<u8>, NtfsPosition);
impl NtfsIndexEntryKey for Key {
    fn key_from_slice(slice: &[u8], position: NtfsPosition) -> ntfs::Result<Self> {
        Ok(Key(slice.to_vec(), position))
    }
}
impl NtfsIndexEntryType for Plain {
    type KeyType = Key;
}

struct Case {
    kind: String,
    ru: u64,
    /// device position of every unit
    loc: Vec<Option<u64>>,
    runs: Vec<Run>,
    unit: u64,
    cs: u64,
    raw: Value,
    variant: String,
}

impl Case {
    fn parse(v: &Value, rng: &mut Rng) -> Case {
        let ru = ji(&v["ru"]) as u64;
        // record size is ru units of half a cluster each
        let cs = match ru {
            1 => *rng.pick(&[2048u64, 4096]),
            2 => *rng.pick(&[1024u64, 2048, 4096]),
            4 => *rng.pick(&[512u64, 1024, 2048]),
            _ => *rng.pick(&[512u64, 1024]),
        };
        let unit = cs / 2;
        let runs = ja(&v["runs"])
            .iter()
            .map(|r| Run { lcn: if ji(&r["base"]) < 0 { None } else { Some(ji(&r["base"]) as u64 / 2) }, len: ji(&r["len"]) as u64 })
            .collect();
        let loc = ja(&v["loc"]).iter().map(|l| if ji(l) < 0 { None } else { Some(ji(l) as u64 * unit) }).collect();
        Case { kind: js(&v["kind"]).into(), ru, loc, runs, unit, cs, raw: json!({"kind": v["kind"], "ru": ru, "runs": v["runs"]}), variant: format!("cs={}", cs) }
    }
    fn rec(&self) -> u64 {
        self.ru * self.unit
    }
    fn pos(&self, o: u64) -> Option<u64> {
        self.loc.get((o / self.unit) as usize).copied().flatten().map(|p| p + o % self.unit)
    }
    fn intact(&self, record: u64) -> bool {
        (0..self.ru).all(|i| self.loc[(record * self.ru + i) as usize].is_some())
    }
    fn write(&self, disk: &mut Disk, at: u64, data: &[u8]) {
        for (i, b) in data.iter().enumerate() {
            if let Some(p) = self.pos(at + i as u64) {
                disk.write(p, &[*b]);
            }
        }
    }
}

struct Judge<'a> {
    c: &'a Case,
    rep: &'a mut Report,
    bad: Option<String>,
}
impl Judge<'_> {
    /// The library reports `got` for the object at `off` of `record` (stream offset for lists).
    fn at(&mut self, what: &str, record: u64, off: u64, got: NtfsPosition) {
        let o = record * self.c.rec() + off;
        let want = self.c.pos(o);
        let got = got.value().map(|x| x.get());
        self.rep.add("positions", 1);
        if got == want {
            return;
        }
        let base = if self.c.kind == "list" { None } else { self.c.pos(record * self.c.rec()) };
        let torn = base.map(|b| b + off) != want;
        let m = format!("{} at offset {} of record {}: reported {:?}, stored at {:?}", what, off, record, got, want);
        if torn && base.is_some() && got == base.map(|b| b + off) {
            self.rep.add("behind_a_border", 1);
            self.rep.violation("position", json!({"finding": "split-record-position", "message": m, "cfg": self.c.raw, "variant": self.c.variant}));
        } else if self.bad.is_none() {
            self.bad = Some(m);
        }
    }
    /// At the end of a value either the last byte's successor or the place of the next byte.
    fn end(&mut self, what: &str, record: u64, off: u64, got: NtfsPosition) {
        let g = got.value().map(|x| x.get());
        let o = record * self.c.rec() + off;
        if g.is_some() && (g == self.c.pos(o - 1).map(|p| p + 1)) {
            self.rep.add("positions", 1);
            return;
        }
        self.at(what, record, off, got);
    }
}

type R<T> = Result<T, String>;
fn er(e: NtfsError) -> String {
    match e {
        NtfsError::Io(_) => "Io".into(),
        e => ename(&e),
    }
}

/// A file record with attributes up to its end, and where they are.
struct Full {
    rec: Rec,
    offs: Vec<usize>,
}
fn fill(num: u64, frs: usize, head: Vec<Vec<u8>>, rng: &mut Rng) -> Full {
    let mut rec = Rec::dir(num);
    let mut o = Rec::attrs_off(frs);
    let mut offs = vec![];
    for a in head {
        offs.push(o);
        o += a.len();
        rec.attrs.push(a);
    }
    let mut i = 0u16;
    loop {
        let name = u16s(&format!("s{}", i));
        let a = if i >= 5 && i % 3 == 2 {
            // a run list of some hundred bytes
            let runs: Vec<Run> = (0..rng.range(30, 90)).map(|k| Run { lcn: Some(7 + 3 * k + k % 5 * 300), len: 1 + k % 3 * 200 }).collect();
            nr_simple(T_DATA, &name, 100 * num as u16 + 40 + i, 512, &runs, 700, 700)
        } else if i % 3 == 2 {
            nr_simple(T_DATA, &name, 100 * num as u16 + 40 + i, 512, &[Run { lcn: Some(77 + i as u64), len: 1 + i as u64 }, Run { lcn: None, len: 2 }, Run { lcn: Some(9), len: 300 }], 700, 700)
        } else {
            let a = attr_resident(T_DATA, &name, 100 * num as u16 + 40 + i, 0, &vec![i as u8; rng.range(8, frs as u64 / 9) as usize]);
            if rng.chance(1, 3) {
                // values may begin anywhere behind the name
                shift_value(a, rng.range(1, 9) as usize)
            } else {
                a
            }
        };
        if o + a.len() + 8 > frs {
            break;
        }
        offs.push(o);
        o += a.len();
        rec.attrs.push(a);
        i += 1;
    }
    Full { rec, offs }
}

/// A resident attribute whose value begins some bytes later.
fn shift_value(a: Vec<u8>, by: usize) -> Vec<u8> {
    let (vo, vl) = (r16(&a, 20) as usize, r32(&a, 16) as usize);
    let mut b = a[..vo].to_vec();
    b.resize(vo + by, 0);
    b.extend_from_slice(&a[vo..vo + vl]);
    b.resize(al8(b.len()), 0);
    let n = b.len();
    w16(&mut b, 20, (vo + by) as u16);
    w32(&mut b, 4, n as u32);
    b
}

fn check_attr(j: &mut Judge, n: u64, off: usize, a: &NtfsAttribute, fs: &mut Disk, rng: &mut Rng) -> R<()> {
    j.at("attribute", n, off as u64, a.position());
    if let Err(NtfsError::AttributeOfDifferentType { position, .. }) = a.structured_value::<_, NtfsVolumeInformation>(fs) {
        j.at("attribute named in an error", n, off as u64, position);
    }
    if a.ty().map_err(er)? != NtfsAttributeType::IndexRoot && a.ty().map_err(er)? != NtfsAttributeType::AttributeList && !a.is_resident() {
        if let NtfsAttributeValue::NonResident(v) = a.value(fs).map_err(er)? {
            // the run list begins behind header and name
            let ro = al8(64 + a.name_length());
            let mut runs = v.data_runs();
            let mut o = ro;
            // headers are re-derived from the lengths of the fields
            let bytes = fs_bytes(j.c, n, off, a.attribute_length() as usize, fs);
            loop {
                if o < bytes.len() && bytes[o] == 0 {
                    break;
                }
                j.at("run list entry", n, (off + o) as u64, runs.position());
                match runs.next() {
                    None => return Err("run list ends early".into()),
                    Some(r) => {
                        r.map_err(er)?;
                    }
                }
                o += 1 + (bytes[o] & 15) as usize + (bytes[o] >> 4) as usize;
            }
        }
    } else if a.is_resident() {
        let vo = fs_bytes(j.c, n, off, 24, fs);
        let (vl, vo) = (r32(&vo, 16) as u64, r16(&vo, 20) as u64);
        let mut v = a.value(fs).map_err(er)?;
        j.at("resident value", n, off as u64 + vo, v.data_position());
        for _ in 0..4 {
            let p = if rng.chance(1, 4) { vl } else { rng.below(vl + 1) };
            if rng.chance(1, 2) {
                v.seek(fs, SeekFrom::Start(p)).map_err(er)?;
            } else {
                v.seek(fs, SeekFrom::Start(0)).map_err(er)?;
                let mut b = vec![0; p as usize];
                v.read(fs, &mut b).map_err(er)?;
            }
            if v.stream_position() != p {
                return Err(format!("stream position {} instead of {} (length {}, {}) of attribute {:?} {:?}", v.stream_position(), p, vl, v.len(), a.ty(), a.instance()));
            }
            if p < vl {
                j.at("cursor of a resident value", n, off as u64 + vo + p, v.data_position());
            } else if p > 0 {
                j.end("end of a resident value", n, off as u64 + vo + p, v.data_position());
            }
        }
        v.seek(fs, SeekFrom::Start(vl + 1 + rng.below(9))).map_err(er)?;
        if v.data_position().value().is_some() {
            j.bad = Some(format!("a cursor behind the end of a resident value has position {:?}", v.data_position()));
        }
    }
    Ok(())
}

/// The bytes of an attribute as stored (sector ends excepted, which are not looked at: numbers there come from the protected record).
fn fs_bytes(c: &Case, n: u64, off: usize, len: usize, fs: &Disk) -> Vec<u8> {
    let rec: Vec<u8> = (0..c.rec()).map(|o| c.pos(n * c.rec() + o).map(|p| fs.byte(p)).unwrap_or(0)).collect();
    let mut r = rec.clone();
    let ua = r16(&rec, 4) as usize;
    for s in 0..(r16(&rec, 6) as usize - 1) {
        r[s * 512 + 510] = rec[ua + 2 + 2 * s];
        r[s * 512 + 511] = rec[ua + 3 + 2 * s];
    }
    r[off..off + len].to_vec()
}

fn index_entries(n: usize, irs: u64, first: bool, sub: &dyn Fn(usize) -> Option<i64>, rng: &mut Rng) -> Vec<Ent> {
    let _ = first;
    let mut v = vec![];
    for i in 0..n {
        let k = rng.range(4, irs / 8) as usize;
        let mut key = vec![0x11u8; k];
        key[0] = i as u8;
        v.push(Ent { fref: 0, key, sub: sub(i), last: false });
    }
    v.push(Ent { fref: 0, key: vec![], sub: sub(n), last: true });
    v
}

fn ent_offs(start: u64, es: &[Ent]) -> Vec<u64> {
    let mut o = start;
    es.iter()
        .map(|e| {
            let r = o;
            o += e.bytes().len() as u64;
            r
        })
        .collect()
}

fn mft_case(c: &Case, rng: &mut Rng, rep: &mut Report) -> R<()> {
    let frs = c.rec() as usize;
    let mut vol = Vol::new(c.cs, 512, frs as u64, 1 << 13, c.runs.clone());
    vol.vary_sectors(rng);
    vol.mft_size = 6 * frs as u64;
    let mut full: Vec<Full> = vec![];
    for n in 0..6u64 {
        let std = attr_resident(T_STD, &[], 0, 0, &[7; 72]);
        let irs = *rng.pick(&[512u32, 1024]);
        let f = if n == 0 {
            let r = vol.mft_record();
            let mut o = Rec::attrs_off(frs);
            let offs = r.attrs.iter().map(|a| { let x = o; o += a.len(); x }).collect();
            Full { rec: r, offs }
        } else {
            let es = index_entries(3, 256, true, &|_| None, rng);
            let root = attr_resident(T_IROOT, &u16s("$I30"), 5, 0, &index_root_value(irs, 1, &es, false));
            let mut head = vec![std];
            if n % 2 == 0 && n + 1 < 6 {
                let ents: Vec<ListEnt> = vec![
                    ListEnt { ty: T_STD, name: vec![], lowest: 0, fref: n | 1 << 48, instance: 0 },
                    ListEnt { ty: T_DATA, name: u16s("s0"), lowest: 0, fref: (n + 1) | 1 << 48, instance: 100 * (n as u16 + 1) + 40 },
                    ListEnt { ty: T_DATA, name: u16s("s1"), lowest: 0, fref: (n + 1) | 1 << 48, instance: 100 * (n as u16 + 1) + 41 },
                    ListEnt { ty: T_DATA, name: u16s("s2"), lowest: 0, fref: (n + 1) | 1 << 48, instance: 100 * (n as u16 + 1) + 42 },
                    ListEnt { ty: T_IROOT, name: u16s("$I30"), lowest: 0, fref: n | 1 << 48, instance: 5 },
                ];
                head.push(attr_resident(T_LIST, &[], 1, 0, &list_bytes(&ents)));
            }
            head.push(attr_resident(T_NAME, &[], 2, 0, &Fname::new(5, &u16s("name"), 1).bytes()));
            if rng.chance(1, 2) {
                head.push(root);
                fill(n, frs, head, rng)
            } else {
                // at the end of the record
                let mut f = fill(n, frs - root.len(), head, rng);
                f.offs = f.offs.iter().map(|o| o + Rec::attrs_off(frs) - Rec::attrs_off(frs - root.len())).collect();
                while f.offs.last().unwrap() + f.rec.attrs.last().unwrap().len() + root.len() + 8 > frs {
                    f.offs.pop();
                    f.rec.attrs.pop();
                }
                f.offs.push(f.offs.last().unwrap() + f.rec.attrs.last().unwrap().len());
                f.rec.attrs.push(root);
                f
            }
        };
        c.write(&mut vol.disk, n * frs as u64, &f.rec.bytes(frs));
        full.push(f);
    }
    let mut fs = vol.disk.fork();
    let fs = &mut fs;
    let ntfs = Ntfs::new(fs).map_err(er)?;
    let mut j = Judge { c, rep, bad: None };
    j.at("mft_position", 0, 0, ntfs.mft_position());
    for n in 0..6u64 {
        if !c.intact(n) {
            j.rep.add("records_in_holes", 1);
            continue;
        }
        let f = &full[n as usize];
        let file = ntfs.file(fs, n).map_err(er)?;
        j.rep.add("file_records", 1);
        j.at("file record", n, 0, file.position());
        let mut raw = file.attributes_raw();
        for (i, off) in f.offs.iter().enumerate() {
            let a = raw.next().ok_or("attributes end early")?.map_err(er)?;
            check_attr(&mut j, n, *off, &a, fs, rng)?;
            if r32(&f.rec.attrs[i], 0) == T_IROOT {
                let root = a.resident_structured_value::<NtfsIndexRoot>().map_err(er)?;
                let vo = *off as u64 + r16(&f.rec.attrs[i], 20) as u64;
                j.at("index root", n, vo, root.position());
                let mut o = vo + 32;
                for e in root.entries::<Plain>().map_err(er)? {
                    let e = e.map_err(er)?;
                    j.at("index root entry", n, o, e.position());
                    if let Some(k) = e.key() {
                        j.at("index root key", n, o + 16, k.map_err(er)?.1);
                    }
                    o += e.index_entry_length() as u64;
                }
            }
            if r32(&f.rec.attrs[i], 0) == T_LIST {
                let l = a.structured_value::<_, NtfsAttributeList>(fs).map_err(er)?;
                let vo = *off as u64 + 24;
                j.at("attribute list", n, vo, l.position());
                let mut o = vo;
                let mut it = l.entries();
                while let Some(e) = it.next(fs) {
                    let e = e.map_err(er)?;
                    j.at("attribute list entry", n, o, e.position());
                    o += r16(&f.rec.attrs[i], (o - *off as u64) as usize + 4) as u64;
                    let other = e.base_file_reference().file_record_number();
                    if !c.intact(other) {
                        continue;
                    }
                    let g = e.to_file(&ntfs, fs).map_err(er)?;
                    j.at("file record of a list entry", other, 0, g.position());
                    let b = e.to_attribute(&g).map_err(er)?;
                    let k = full[other as usize].rec.attrs.iter().position(|x| r16(x, 14) == b.instance()).ok_or("no such attribute")?;
                    j.at("attribute of a list entry", other, full[other as usize].offs[k] as u64, b.position());
                }
            }
        }
        // flattened: through the list into the extension record
        let ext = n % 2 == 0 && n > 0 && n + 1 < 6;
        if !ext || c.intact(n + 1) {
            let mut it = file.attributes();
            while let Some(item) = it.next(fs) {
                let item = item.map_err(er)?;
                let a = item.to_attribute().map_err(er)?;
                let (rn, f2) = if ext && a.ty().map_err(er)? == NtfsAttributeType::Data && (a.instance() / 100) as u64 == n + 1 {
                    (n + 1, &full[n as usize + 1])
                } else {
                    (n, f)
                };
                let k = f2.rec.attrs.iter().position(|x| r16(x, 14) == a.instance() && r32(x, 0) == a.ty().unwrap() as u32).ok_or("no such attribute")?;
                check_attr(&mut j, rn, f2.offs[k] as u64 as usize, &a, fs, rng)?;
                j.rep.add("flattened", 1);
            }
            if n > 0 {
                let index = file.directory_index(fs).map_err(er)?;
                let k = f.rec.attrs.iter().position(|x| r32(x, 0) == T_IROOT).unwrap();
                let vo = f.offs[k] as u64 + r16(&f.rec.attrs[k], 20) as u64;
                let _ = (index, vo);
            }
        }
        match file.find_missing(fs) {
            Some(p) => j.at("file record named in an error", n, 0, p),
            None => {}
        }
    }
    // an error names the record it is about
    let n = 1 + rng.below(5);
    if c.intact(n) {
        let mut d = vol.disk.fork();
        c.write(&mut d, n * frs as u64, b"BAAD");
        match ntfs.file(&mut d, n) {
            Err(NtfsError::InvalidFileSignature { position, .. }) => j.at("file record with a wrong signature", n, 0, position),
            Err(e) => return Err(format!("wrong signature gave {}", er(e))),
            Ok(_) => return Err("wrong signature accepted".into()),
        }
    }
    j.bad.map_or(Ok(()), Err)
}

trait Missing {
    fn find_missing(&self, fs: &mut Disk) -> Option<NtfsPosition>;
}
impl Missing for NtfsFile<'_> {
    /// The position an error about something missing in this record names.
    fn find_missing(&self, _fs: &mut Disk) -> Option<NtfsPosition> {
        if self.attributes_raw().any(|a| matches!(a.map(|a| a.ty()), Ok(Ok(NtfsAttributeType::StandardInformation)))) {
            return None;
        }
        match self.info() {
            Err(NtfsError::AttributeNotFound { position, .. }) => Some(position),
            _ => None,
        }
    }
}

const DIR: u64 = 24;

fn index_case(c: &Case, rng: &mut Rng, rep: &mut Report) -> R<()> {
    let irs = c.rec();
    let frs = *rng.pick(&[1024u64, 2048]);
    let mlcn = 16 + 4096 * 8 / c.cs + 3000;
    let mut vol = Vol::new(c.cs, 512, frs, 1 << 13, vec![Run { lcn: Some(mlcn), len: 64 * frs / c.cs }]);
    vol.vary_sectors(rng);
    vol.put_mft_record();
    let unit = if c.cs > irs { 512 } else { c.cs };
    let vcn = |n: u64| (n * irs / unit) as i64;
    let nodes = 4u64;
    let mut all: Vec<Vec<Ent>> = vec![];
    let eo = (24 + al8(40 + 2 + 2 * (irs as usize / 512)) - 24) as u64;
    for n in 0..nodes {
        // as many entries as fit
        let mut es = index_entries(20, irs, false, &|_| None, rng);
        for e in es.iter_mut().filter(|e| !e.last) {
            e.key.insert(0, n as u8);
        }
        while eo + es.iter().map(|e| e.bytes().len() as u64).sum::<u64>() > irs {
            let k = es.len() - 2;
            es.remove(k);
        }
        let b = index_record(irs as usize, vcn(n), &es, 9);
        c.write(&mut vol.disk, n * irs, &b);
        all.push(es);
    }
    // the root refers to the nodes that are there
    let mut root = vec![];
    for n in 0..nodes {
        let last = n + 1 == nodes;
        let sub = if c.intact(n) { Some(vcn(n)) } else { None };
        root.push(Ent { fref: 0, key: if last { vec![] } else { vec![n as u8, 0xff, 0xff] }, sub, last });
    }
    let alloc = nodes * irs;
    let split = c.runs.len() >= 2 && rng.chance(1, 2);
    let iroot = attr_resident(T_IROOT, &u16s("$I30"), 2, 0, &index_root_value(irs as u32, 1, &root, true));
    let mut ialloc = vec![];
    let mut lo = 0;
    for (i, r) in c.runs.iter().enumerate() {
        ialloc.push(attr_nonresident(&Nr {
            ty: T_IALLOC,
            name: u16s("$I30"),
            instance: 3 + i as u16,
            flags: 0,
            lowest: lo,
            highest: lo + r.len - 1,
            runs: encode_runs(&[r.clone()]),
            alloc: if i == 0 { alloc } else { 0 },
            size: if i == 0 { alloc } else { 0 },
            init: if i == 0 { alloc } else { 0 },
        }));
        lo += r.len;
    }
    let std = attr_resident(T_STD, &[], 0, 0, &[7; 72]);
    if split {
        let mut ents = vec![
            ListEnt { ty: T_STD, name: vec![], lowest: 0, fref: DIR | 1 << 48, instance: 0 },
            ListEnt { ty: T_IROOT, name: u16s("$I30"), lowest: 0, fref: DIR | 1 << 48, instance: 2 },
        ];
        let mut lo = 0;
        for (i, a) in ialloc.iter().enumerate() {
            let num = DIR + 1 + i as u64;
            ents.push(ListEnt { ty: T_IALLOC, name: u16s("$I30"), lowest: lo, fref: num | 1 << 48, instance: 3 + i as u16 });
            lo += c.runs[i].len;
            let mut r = Rec::new(num);
            r.base = DIR | 1 << 48;
            vol.put(&r.attr(a.clone()));
        }
        vol.put(&Rec::dir(DIR).attr(std).attr(attr_resident(T_LIST, &[], 1, 0, &list_bytes(&ents))).attr(iroot));
    } else {
        let ia = nr_simple(T_IALLOC, &u16s("$I30"), 3, c.cs, &c.runs, alloc, alloc);
        vol.put(&Rec::dir(DIR).attr(std).attr(iroot).attr(ia));
    }
    let mut fs = vol.disk.fork();
    let fs = &mut fs;
    let ntfs = Ntfs::new(fs).map_err(er)?;
    let file = ntfs.file(fs, DIR).map_err(er)?;
    let mut j = Judge { c, rep, bad: None };
    if j.c.loc[0].is_some() && split {
        j.rep.add("split_allocations", 1);
    }
    let mut it = file.attributes();
    let (mut ri, mut ai) = (None, None);
    while let Some(item) = it.next(fs) {
        let item = item.map_err(er)?;
        let ty = item.to_attribute().map_err(er)?.ty().map_err(er)?;
        if ty == NtfsAttributeType::IndexRoot {
            ri = Some(item);
        } else if ty == NtfsAttributeType::IndexAllocation {
            ai = Some(item);
        }
    }
    let (ri, ai) = (ri.ok_or("no index root")?, ai.ok_or("no index allocation")?);
    let aattr = ai.to_attribute().map_err(er)?;
    let al = aattr.structured_value::<_, NtfsIndexAllocation>(fs).map_err(er)?;
    let node = |j: &mut Judge, what: &str, n: u64, r: &NtfsIndexRecord| -> R<()> {
        let offs = ent_offs(eo, &all[n as usize]);
        let mut i = 0;
        for e in r.entries::<Plain>().map_err(er)? {
            let e = e.map_err(er)?;
            let o = *offs.get(i).ok_or("too many entries")?;
            j.at(what, n, o, e.position());
            if let Some(k) = e.key() {
                j.at("index record key", n, o + 16, k.map_err(er)?.1);
            }
            i += 1;
        }
        if i != offs.len() {
            return Err("too few entries".into());
        }
        j.rep.add("index_records", 1);
        Ok(())
    };
    for n in 0..nodes {
        if c.intact(n) {
            let r = al.record_from_vcn(fs, irs as u32, Vcn::from(vcn(n))).map_err(er)?;
            node(&mut j, "index entry of a record by number", n, &r)?;
        }
    }
    let mut rs = al.records(irs as u32);
    for n in 0..nodes {
        if !c.intact(n) {
            break;
        }
        let r = rs.next(fs).ok_or("records end early")?.map_err(er)?;
        node(&mut j, "index entry of a record in order", n, &r)?;
    }
    // iteration and search over the whole tree
    let index = NtfsIndex::<Plain>::new(ri, Some(ai.clone())).map_err(er)?;
    let find = |key: &[u8]| -> Option<(u64, u64)> {
        for n in 0..nodes {
            let offs = ent_offs(eo, &all[n as usize]);
            for (e, o) in all[n as usize].iter().zip(offs) {
                if !e.last && e.key == key {
                    return Some((n, o));
                }
            }
        }
        None
    };
    let mut entries = index.entries();
    let mut seen = 0;
    let mut keys = vec![];
    while let Some(e) = entries.next(fs) {
        let e = e.map_err(er)?;
        let k = e.key().ok_or("no key")?.map_err(er)?;
        if let Some((n, o)) = find(&k.0) {
            j.at("index entry in iteration", n, o, e.position());
            j.at("key in iteration", n, o + 16, k.1);
            seen += 1;
            keys.push(k.0);
        }
    }
    let want: usize = (0..nodes).filter(|n| c.intact(*n)).map(|n| all[n as usize].len() - 1).sum();
    if seen != want {
        return Err(format!("iteration shows {} of {} entries", seen, want));
    }
    let mut finder = index.finder();
    for k in keys {
        let (n, o) = find(&k).unwrap();
        // keys of a node are ordered by their second byte
        let e = finder.find(fs, |x: &Key| (k[0], k[1]).cmp(&(x.0[0], x.0[1]))).ok_or("not found")?.map_err(er)?;
        j.at("index entry found", n, o, e.position());
        j.at("key found", n, o + 16, e.key().unwrap().map_err(er)?.1);
    }
    // an error names the record it is about
    let n = rng.below(nodes);
    if c.intact(n) {
        let mut d = vol.disk.fork();
        c.write(&mut d, n * irs, b"BAAD");
        match al.record_from_vcn(&mut d, irs as u32, Vcn::from(vcn(n))) {
            Err(NtfsError::InvalidIndexSignature { position, .. }) => j.at("index record with a wrong signature", n, 0, position),
            Err(e) => return Err(format!("wrong signature gave {}", er(e))),
            Ok(_) => return Err("wrong signature accepted".into()),
        }
    }
    j.bad.map_or(Ok(()), Err)
}

/// The first of the entries as a list within the file record, each with up to some hundred unused bytes.
fn resident_list(ents: &[(u64, ListEnt)], rng: &mut Rng) -> R<()> {
    let mut vol = Vol::new(4096, 512, 4096, 1 << 10, vec![Run { lcn: Some(16), len: 64 }]);
    vol.put_mft_record();
    let mut at = vec![];
    let (mut es, mut pads, mut len) = (vec![], vec![], 0);
    for (_, e) in ents {
        let pad = if rng.chance(1, 4) { rng.below(600) as usize } else { 0 };
        let l = al8(26 + 2 * e.name.len() + pad);
        if len + l > 3600 {
            break;
        }
        at.push(len as u64);
        len += l;
        es.push(e.clone());
        pads.push(pad);
    }
    let std = attr_resident(T_STD, &[], 0, 0, &[7; 72]);
    let start = vol.mft_pos(DIR * 4096).unwrap() + (Rec::attrs_off(4096) + std.len()) as u64 + 24;
    vol.put(&Rec::new(DIR).attr(std).attr(attr_resident(T_LIST, &[], 1, 0, &list_bytes_padded(&es, &pads))));
    let fs = &mut vol.disk;
    let ntfs = Ntfs::new(fs).map_err(er)?;
    let file = ntfs.file(fs, DIR).map_err(er)?;
    let a = file.attributes_raw().nth(1).ok_or("no list")?.map_err(er)?;
    let l = a.structured_value::<_, NtfsAttributeList>(fs).map_err(er)?;
    let is = |p: ntfs::types::NtfsPosition| p.value().map(|p| p.get() - start);
    if is(l.position()) != Some(0) {
        return Err("the position of a resident list is not where it begins".into());
    }
    let mut it = l.entries();
    for (o, e) in at.iter().zip(&es) {
        let x = it.next(fs).ok_or("entries end early")?.map_err(er)?;
        if x.instance() != e.instance {
            return Err("wrong entry".into());
        }
        if is(x.position()) != Some(*o) {
            return Err(format!("the entry at {} of a resident list is reported at {:?}", o, is(x.position())));
        }
    }
    Ok(())
}

fn list_case(c: &Case, rng: &mut Rng, rep: &mut Report) -> R<()> {
    let mlcn = 3000;
    let mut vol = Vol::new(c.cs, 512, 1024, 1 << 13, vec![Run { lcn: Some(mlcn), len: 64 * 1024 / u64::min(c.cs, 1024) }]);
    vol.vary_sectors(rng);
    vol.put_mft_record();
    let total: u64 = c.runs.iter().map(|r| r.len * c.cs).sum();
    let mut ents = vec![];
    let mut len = 0;
    let mut i = 0u16;
    loop {
        let name: Vec<u16> = {
            let most = if rng.chance(1, 5) { 255 } else { 20 };
            vec![b'x' as u16; rng.below(most) as usize]
        };
        let e = ListEnt { ty: T_DATA, name, lowest: 0, fref: 30 | 1 << 48, instance: i };
        let l = list_bytes(&[e.clone()]).len() as u64;
        if len + l > total || (len + l > total - c.cs && rng.chance(1, 8)) {
            break;
        }
        len += l;
        i += 1;
        ents.push((len - l, e));
    }
    let b = list_bytes(&ents.iter().map(|e| e.1.clone()).collect::<Vec<_>>());
    resident_list(&ents, rng)?;
    c.write(&mut vol.disk, 0, &b);
    vol.put(&Rec::new(DIR).attr(attr_resident(T_STD, &[], 0, 0, &[7; 72])).attr(nr_simple(T_LIST, &[], 1, c.cs, &c.runs, len, len)));
    let mut fs = vol.disk.fork();
    let fs = &mut fs;
    let ntfs = Ntfs::new(fs).map_err(er)?;
    let file = ntfs.file(fs, DIR).map_err(er)?;
    let mut j = Judge { c, rep, bad: None };
    let a = file.attributes_raw().nth(1).ok_or("no list")?.map_err(er)?;
    let l = a.structured_value::<_, NtfsAttributeList>(fs).map_err(er)?;
    j.at("attribute list", 0, 0, l.position());
    let mut it = l.entries();
    for (o, e) in &ents {
        let x = it.next(fs).ok_or("entries end early")?.map_err(er)?;
        if x.instance() != e.instance {
            return Err("wrong entry".into());
        }
        j.at("attribute list entry", 0, *o, x.position());
        j.rep.add("list_entries", 1);
    }
    j.bad.map_or(Ok(()), Err)
}

pub fn replay(path: &str, out: &str, seed: u64, rounds: u64) {
    let cases = read_ndjson(path);
    let mut rep = parallel(&cases, |i, v, rep| {
        let list = js(&v["kind"]) == "list";
        for round in 0..(if list { rounds * 20 } else { rounds }) {
            let mut rng = Rng::new(seed ^ (i as u64) << 24 ^ round << 56);
            let c = Case::parse(v, &mut rng);
            rep.add("layouts", 1);
            let r = guard(|| match c.kind.as_str() {
                "mft" => mft_case(&c, &mut rng, rep),
                "index" => index_case(&c, &mut rng, rep),
                _ => list_case(&c, &mut rng, rep),
            });
            match r {
                Ok(Ok(())) => {
                    if c.runs.len() == 3 {
                        rep.sample(4, || json!({"cfg": c.raw, "variant": c.variant}));
                    }
                }
                Ok(Err(m)) if m.contains("reported") || m.contains("has position") => {
                    rep.violation("position", json!({"message": m, "cfg": c.raw, "variant": c.variant}))
                }
                // what is not found or read wrongly is decided elsewhere
                Ok(Err(m)) | Err(m) => {
                    rep.add("not_reached", 1);
                    rep.sample(5, || json!({"not_reached": m, "cfg": c.raw, "variant": c.variant}));
                }
            }
        }
    });
    rep.add("cases", cases.len() as u64);
    rep.write(out);
}
