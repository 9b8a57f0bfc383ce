//! Typed structures (Layout.tla, C17): every byte pattern is stored in a volume and read back through every way the library offers.
use crate::img::*;
use crate::util::*;
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::{NtfsPosition, Vcn};
use ntfs::{Ntfs, NtfsAttribute, NtfsAttributeType, NtfsFile, NtfsGuid, NtfsIndexEntry};
use serde_json::{json, Value};
use std::collections::BTreeMap;

type Fields = BTreeMap<String, Value>;

/// An index entry type of our own, with keys, data and file references of plain bytes.
#[derive(Clone, Debug)]
struct Plain;
#[derive(Debug)]
struct Raw(Vec<u8>);
impl NtfsIndexEntryKey for Raw {
    fn key_from_slice(slice: &[u8], _position: NtfsPosition) -> ntfs::Result<Self> {
        Ok(Raw(slice.to_vec()))
    }
}
impl NtfsIndexEntryData for Raw {
    fn data_from_slice(slice: &[u8], _position: NtfsPosition) -> ntfs::Result<Self> {
        Ok(Raw(slice.to_vec()))
    }
}
impl NtfsIndexEntryType for Plain {
    type KeyType = Raw;
}
impl NtfsIndexEntryHasData for Plain {
    type DataType = Raw;
}
impl NtfsIndexEntryHasFileReference for Plain {}

fn n(f: &mut Fields, k: &str, w: usize, v: u64) {
    f.insert(k.into(), json!(v.to_le_bytes()[..w]));
}
fn bytes(f: &mut Fields, k: &str, v: &[u8]) {
    f.insert(k.into(), json!(v));
}
fn fref(f: &mut Fields, k: &str, r: ntfs::NtfsFileReference) {
    n(f, &format!("{}_number", k), 8, r.file_record_number());
    n(f, &format!("{}_sequence", k), 2, r.sequence_number() as u64);
}
fn guid(f: &mut Fields, k: &str, g: &NtfsGuid) {
    let mut b = g.data1.to_le_bytes().to_vec();
    b.extend(g.data2.to_le_bytes());
    b.extend(g.data3.to_le_bytes());
    b.extend(g.data4);
    bytes(f, &format!("guid:{}", k), &b);
    f.insert(format!("text:{}", k), json!(g.to_string()));
}

fn std_fields(s: &NtfsStandardInformation) -> Fields {
    let mut f = Fields::new();
    n(&mut f, "creation", 8, s.creation_time().nt_timestamp());
    n(&mut f, "modification", 8, s.modification_time().nt_timestamp());
    n(&mut f, "record_modification", 8, s.mft_record_modification_time().nt_timestamp());
    n(&mut f, "access", 8, s.access_time().nt_timestamp());
    n(&mut f, "attributes", 4, s.file_attributes().bits() as u64);
    let mut o = |k: &str, w: usize, v: Option<u64>| {
        if let Some(v) = v {
            n(&mut f, k, w, v);
        }
    };
    o("maximum_versions", 4, s.maximum_versions().map(u64::from));
    o("version", 4, s.version().map(u64::from));
    o("class", 4, s.class_id().map(u64::from));
    o("owner", 4, s.owner_id().map(u64::from));
    o("security", 4, s.security_id().map(u64::from));
    o("quota", 8, s.quota_charged());
    o("usn", 8, s.usn());
    f
}

fn name_fields(s: &NtfsFileName) -> Result<Fields, String> {
    let mut f = Fields::new();
    fref(&mut f, "parent", s.parent_directory_reference());
    n(&mut f, "creation", 8, s.creation_time().nt_timestamp());
    n(&mut f, "modification", 8, s.modification_time().nt_timestamp());
    n(&mut f, "record_modification", 8, s.mft_record_modification_time().nt_timestamp());
    n(&mut f, "access", 8, s.access_time().nt_timestamp());
    n(&mut f, "allocated", 8, s.allocated_size());
    n(&mut f, "size", 8, s.data_size());
    n(&mut f, "attributes", 4, s.file_attributes().bits() as u64);
    n(&mut f, "namespace", 1, s.namespace() as u64);
    bytes(&mut f, "name", s.name().0);
    if s.name_length() != s.name().0.len() {
        return Err("mismatch: name_length".into());
    }
    if s.is_directory() != (s.file_attributes().bits() & 0x1000_0000 != 0) {
        return Err("mismatch: is_directory".into());
    }
    Ok(f)
}

fn volinfo_fields(s: &NtfsVolumeInformation) -> Fields {
    let mut f = Fields::new();
    n(&mut f, "major", 1, s.major_version() as u64);
    n(&mut f, "minor", 1, s.minor_version() as u64);
    n(&mut f, "flags", 2, s.flags().bits() as u64);
    f
}

fn volname_fields(s: &NtfsVolumeName) -> Result<Fields, String> {
    let mut f = Fields::new();
    bytes(&mut f, "name", s.name().0);
    if s.name_length() != s.name().0.len() {
        return Err("mismatch: name_length".into());
    }
    Ok(f)
}

fn objid_fields(s: &NtfsObjectId) -> Fields {
    let mut f = Fields::new();
    guid(&mut f, "object", s.object_id());
    for (k, g) in [("birth_volume", s.birth_volume_id()), ("birth_object", s.birth_object_id()), ("domain", s.domain_id())] {
        if let Some(g) = g {
            guid(&mut f, k, g);
        }
    }
    f
}

fn listent_fields(s: &NtfsAttributeListEntry) -> Result<Fields, String> {
    let mut f = Fields::new();
    match s.ty() {
        Ok(t) => n(&mut f, "type", 4, t as u32 as u64),
        Err(ntfs::NtfsError::UnsupportedAttributeType { actual, .. }) => f.insert("unknown".into(), json!(actual.to_le_bytes())).map_or((), |_| ()),
        Err(e) => return Err(ename(&e)),
    }
    n(&mut f, "length", 2, s.list_entry_length() as u64);
    n(&mut f, "lowest", 8, s.lowest_vcn().value() as u64);
    fref(&mut f, "record", s.base_file_reference());
    n(&mut f, "instance", 2, s.instance() as u64);
    bytes(&mut f, "name", s.name().0);
    if s.name_length() != s.name().0.len() {
        return Err("mismatch: name_length".into());
    }
    Ok(f)
}

fn entry_fields(e: &NtfsIndexEntry<Plain>) -> (Fields, Value) {
    let mut f = Fields::new();
    fref(&mut f, "file", e.file_reference());
    n(&mut f, "length", 2, e.index_entry_length() as u64);
    n(&mut f, "key_length", 2, e.key_length() as u64);
    n(&mut f, "flags", 1, e.flags().bits() as u64);
    let p = |x: Option<Result<Vec<u8>, ()>>| match x {
        None => json!({"k": 0, "v": []}),
        Some(Ok(v)) => json!({"k": 1, "v": v}),
        Some(Err(())) => json!({"k": 2, "v": []}),
    };
    let parts = json!({
        "key": p(e.key().map(|k| k.map(|r| r.0).map_err(|_| ()))),
        "sub": p(e.subnode_vcn().map(|k| k.map(|v| v.value().to_le_bytes().to_vec()).map_err(|_| ()))),
        "data": p(e.data().map(|k| k.map(|r| r.0).map_err(|_| ()))),
    });
    (f, parts)
}

struct Got {
    fields: Fields,
    parts: Option<Value>,
    /// what the harness itself put into fields that the structure's surroundings dictate
    dict: Fields,
}
fn got(fields: Fields) -> Got {
    Got { fields, parts: None, dict: Fields::new() }
}

const FRS: usize = 2048;
const NUM: u64 = 24;

fn vol() -> Vol {
    let mut v = Vol::new(512, 512, FRS as u64, 1 << 12, vec![Run { lcn: Some(16), len: 4 * 30 }]);
    v.put_mft_record();
    v
}

fn attr_code(ty: &str) -> u32 {
    match ty {
        "std" => T_STD,
        "name" => T_NAME,
        "volinfo" => T_VOLINFO,
        "volname" => T_VOLNAME,
        "objid" => T_OBJID,
        "listent" => T_LIST,
        _ => T_DATA,
    }
}

/// Stores the value in its own clusters, the second half before the first.
fn nonres(v: &mut Vol, code: u32, b: &[u8], rng: &mut Rng) -> Vec<u8> {
    let clusters = (b.len() as u64 + 511) / 512;
    let runs: Vec<Run> = (0..clusters).map(|i| Run { lcn: Some(1000 + (clusters - i) * 2 + rng.below(2)), len: 1 }).collect();
    for (i, c) in b.chunks(512).enumerate() {
        v.disk.write(runs[i].lcn.unwrap() * 512, c);
    }
    nr_simple(code, &[], 3, 512, &runs, b.len() as u64, b.len() as u64)
}

fn ways(ty: &str) -> usize {
    match ty {
        "std" | "volinfo" | "volname" | "name" => 4,
        "objid" => 3,
        "listent" => 2,
        "attr" => 5,
        "entry" => 2,
        _ => 1,
    }
}

fn e<E: std::fmt::Debug>(x: E) -> String {
    ename(&x)
}

fn observe(ty: &str, b: &[u8], way: usize, rng: &mut Rng) -> Result<Got, String> {
    let mut v = vol();
    let code = attr_code(ty);
    match ty {
        "std" | "name" | "volinfo" | "volname" | "objid" | "listent" => {
            let num = if way == 3 && (ty == "volinfo" || ty == "volname") { 3 } else { NUM };
            let mut r = Rec::new(num);
            if rng.chance(1, 2) && ty != "std" {
                r.attrs.push(attr_resident(T_STD, &[], 9, 0, &vec![0xEE; 72]));
            }
            if way == 3 && ty == "name" {
                // as the key of an index entry
                let ents = [Ent { fref: 7, key: b.to_vec(), sub: None, last: false }, Ent { fref: 0, key: vec![], sub: None, last: true }];
                r.attrs.push(attr_resident(T_IROOT, &u16s("$I30"), 1, 0, &index_root_value(4096, 1, &ents, false)));
            } else if (way == 2 && ty != "listent" && ty != "std" && ty != "name") || (way == 1 && (ty == "listent" || ty == "std" || ty == "name")) {
                let a = nonres(&mut v, code, b, rng);
                r.attrs.push(a);
            } else {
                r.attrs.push(attr_resident(code, &[], 3, rng.below(2) as u16, b));
            }
            // what follows in the record must not matter
            r.attrs.push(attr_resident(T_DATA, &[], 4, 0, &vec![0xDD; 40]));
            v.put(&r);
            let fs = &mut v.disk;
            let ntfs = Ntfs::new(fs).map_err(e)?;
            let file = ntfs.file(fs, num).map_err(e)?;
            let want = if way == 3 && ty == "name" { T_IROOT } else { code };
            let find = |file: &NtfsFile| -> Result<usize, String> {
                for (i, a) in file.attributes_raw().enumerate() {
                    if a.map_err(e)?.ty().map_err(e)? as u32 == want {
                        return Ok(i);
                    }
                }
                Err("mismatch: no attribute".into())
            };
            let i = find(&file)?;
            let a: NtfsAttribute = file.attributes_raw().nth(i).unwrap().map_err(e)?;
            match (ty, way) {
                ("std", 0) => Ok(got(std_fields(&a.resident_structured_value::<NtfsStandardInformation>().map_err(e)?))),
                ("std", 1) | ("std", 2) => Ok(got(std_fields(&a.structured_value::<_, NtfsStandardInformation>(fs).map_err(e)?))),
                ("std", _) => Ok(got(std_fields(&file.info().map_err(e)?))),
                ("name", 0) | ("name", 1) => Ok(got(name_fields(&a.structured_value::<_, NtfsFileName>(fs).map_err(e)?)?)),
                ("name", 2) => Ok(got(name_fields(&file.name(fs, None, None).ok_or("mismatch: none")?.map_err(e)?)?)),
                ("name", _) => {
                    let root = a.resident_structured_value::<NtfsIndexRoot>().map_err(e)?;
                    let mut es = root.entries::<NtfsFileNameIndex>().map_err(e)?;
                    let x = es.next().ok_or("mismatch: none")?.map_err(e)?;
                    match x.key() {
                        None if b.is_empty() => Err("empty".into()),
                        None => Err("mismatch: no key".into()),
                        Some(k) => Ok(got(name_fields(&k.map_err(e)?)?)),
                    }
                }
                ("volinfo", 0) => Ok(got(volinfo_fields(&a.resident_structured_value::<NtfsVolumeInformation>().map_err(e)?))),
                ("volinfo", 3) => Ok(got(volinfo_fields(&ntfs.volume_info(fs).map_err(e)?))),
                ("volinfo", _) => Ok(got(volinfo_fields(&a.structured_value::<_, NtfsVolumeInformation>(fs).map_err(e)?))),
                ("volname", 0) => Ok(got(volname_fields(&a.resident_structured_value::<NtfsVolumeName>().map_err(e)?)?)),
                ("volname", 3) => Ok(got(volname_fields(&ntfs.volume_name(fs).ok_or("mismatch: none")?.map_err(e)?)?)),
                ("volname", _) => Ok(got(volname_fields(&a.structured_value::<_, NtfsVolumeName>(fs).map_err(e)?)?)),
                ("objid", 0) => Ok(got(objid_fields(&a.resident_structured_value::<NtfsObjectId>().map_err(e)?))),
                ("objid", _) => Ok(got(objid_fields(&a.structured_value::<_, NtfsObjectId>(fs).map_err(e)?))),
                _ => unreachable!(),
            }
        }
        "record" => {
            let mut r = Rec::new(NUM);
            r.attrs.push(attr_resident(T_STD, &[], 0, 0, &vec![0xEE; 72]));
            let mut p = r.plain(FRS);
            for k in 16..48 {
                if !(20..22).contains(&k) && !(24..32).contains(&k) {
                    p[k] = b[k];
                }
            }
            let used = r32(&p, 24) + rng.below(3) as u32 * 8;
            let alloc = used.max(FRS as u32 - rng.below(3) as u32 * 8);
            w32(&mut p, 24, used);
            w32(&mut p, 28, alloc);
            protect(&mut p, 48, 7);
            v.put_raw(NUM, &p);
            let fs = &mut v.disk;
            let ntfs = Ntfs::new(fs).map_err(e)?;
            let file = ntfs.file(fs, NUM).map_err(e)?;
            let mut f = Fields::new();
            n(&mut f, "sequence", 2, file.sequence_number() as u64);
            n(&mut f, "links", 2, file.hard_link_count() as u64);
            n(&mut f, "flags", 2, file.flags().bits() as u64);
            n(&mut f, "used", 4, file.data_size() as u64);
            n(&mut f, "allocated", 4, file.allocated_size() as u64);
            if file.is_directory() != (file.flags().bits() & 2 != 0) || file.file_record_number() != NUM {
                return Err("mismatch: is_directory or number".into());
            }
            let mut dict = Fields::new();
            n(&mut dict, "used", 4, used as u64);
            n(&mut dict, "allocated", 4, alloc as u64);
            Ok(Got { fields: f, parts: None, dict })
        }
        "attr" => {
            let resident = way < 2;
            let k = b[9] as usize;
            let name: Vec<u16> = b[16..16 + 2 * k].chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
            let code = *rng.pick(&[0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70, 0x80, 0x90, 0xA0, 0xB0, 0xC0, 0xD0, 0xE0, 0xF0, 0x100, 0x11, 0x180, 0x1000, 0x8000_0010u32]);
            let size = if resident { rng.below(40) } else { rng.next() >> rng.below(64) };
            let mut a = if resident {
                attr_resident(code, &name, 0, 0, &vec![0xAB; size as usize])
            } else {
                nr_simple(code, &name, 0, 512, &[], size, size)
            };
            a[12..16].copy_from_slice(&b[12..16]);
            if !resident {
                a[8] = [1, 2, 128, 255, 1][way];
            }
            let mut r = Rec::new(NUM);
            r.attrs.push(a.clone());
            r.attrs.push(attr_resident(T_DATA, &u16s("zz"), 4, 0, &vec![0xDD; 40]));
            v.put(&r);
            let fs = &mut v.disk;
            let ntfs = Ntfs::new(fs).map_err(e)?;
            let file = ntfs.file(fs, NUM).map_err(e)?;
            let a2 = file.attributes_raw().next().ok_or("mismatch: none")?.map_err(e)?;
            let mut f = Fields::new();
            let mut dict = Fields::new();
            match a2.ty() {
                Ok(t) => n(&mut f, "type", 4, t as u32 as u64),
                Err(ntfs::NtfsError::UnsupportedAttributeType { actual, .. }) if NtfsAttributeType::n(actual).is_none() => n(&mut f, "type", 4, actual as u64),
                Err(x) => return Err(e(x)),
            }
            n(&mut dict, "type", 4, code as u64);
            n(&mut f, "flags", 2, a2.flags().bits() as u64);
            n(&mut f, "instance", 2, a2.instance() as u64);
            bytes(&mut f, "name", a2.name().map_err(e)?.0);
            if a2.is_resident() != resident || a2.name_length() != 2 * k || a2.value_length() != size || a2.attribute_length() as usize != a.len() {
                return Err(format!("mismatch: resident {} name_length {} value_length {} (of {}) attribute_length {}", a2.is_resident(), a2.name_length(), a2.value_length(), size, a2.attribute_length()));
            }
            Ok(Got { fields: f, parts: None, dict })
        }
        "entry" => {
            let i30 = u16s("$I30");
            let mut root = index_root_value(2048, 4, &[Ent { fref: 0, key: vec![], sub: (way == 1).then_some(0), last: true }], way == 1);
            let mut r = Rec::dir(NUM);
            let tail = Ent { fref: 0, key: vec![], sub: None, last: true }.bytes();
            if way == 0 {
                root.truncate(32);
                root.extend(b);
                root.extend(&tail);
                let l = root.len() as u32 - 16;
                w32(&mut root, 20, l);
                w32(&mut root, 24, l);
            }
            r.attrs.push(attr_resident(T_IROOT, &i30, 1, 0, &root));
            if way == 1 {
                r.attrs.push(nr_simple(T_IALLOC, &i30, 2, 512, &[Run { lcn: Some(1000), len: 4 }], 2048, 2048));
                let mut rec = index_record_plain(2048, 0, &[]);
                let eo = 24 + r32(&rec, 24) as usize;
                rec[eo..eo + b.len()].copy_from_slice(b);
                rec[eo + b.len()..eo + b.len() + tail.len()].copy_from_slice(&tail);
                let u = (eo - 24 + b.len() + tail.len()) as u32;
                w32(&mut rec, 28, u);
                protect(&mut rec, 40, 9);
                v.disk.write(1000 * 512, &rec);
            }
            v.put(&r);
            let fs = &mut v.disk;
            let ntfs = Ntfs::new(fs).map_err(e)?;
            let file = ntfs.file(fs, NUM).map_err(e)?;
            let mut it = file.attributes_raw();
            let a = it.next().unwrap().map_err(e)?;
            let (f, p) = if way == 0 {
                let root = a.resident_structured_value::<NtfsIndexRoot>().map_err(e)?;
                let mut es = root.entries::<Plain>().map_err(e)?;
                let x = es.next().ok_or("mismatch: none")?.map_err(e)?;
                entry_fields(&x)
            } else {
                let al = it.next().unwrap().map_err(e)?.structured_value::<_, NtfsIndexAllocation>(fs).map_err(e)?;
                let rec = al.record_from_vcn(fs, 2048, Vcn::from(0)).map_err(e)?;
                let mut es = rec.entries::<Plain>().map_err(e)?;
                let x = es.next().ok_or("mismatch: none")?.map_err(e)?;
                entry_fields(&x)
            };
            Ok(Got { fields: f, parts: Some(p), dict: Fields::new() })
        }
        "root" => {
            let mut root = index_root_value(2048, 4, &[Ent { fref: 0, key: vec![], sub: None, last: true }], false);
            root[8..16].copy_from_slice(&b[8..16]);
            root[28..32].copy_from_slice(&b[28..32]);
            root.extend(vec![0x77; rng.below(3) as usize * 8]);
            let used = 32 + rng.below(((root.len() - 48) / 8) as u64 + 1) as u32 * 8;
            let alloc = (root.len() - 16) as u32;
            w32(&mut root, 20, used);
            w32(&mut root, 24, alloc);
            let mut r = Rec::dir(NUM);
            r.attrs.push(attr_resident(T_IROOT, &u16s("$I30"), 1, 0, &root));
            v.put(&r);
            let fs = &mut v.disk;
            let ntfs = Ntfs::new(fs).map_err(e)?;
            let file = ntfs.file(fs, NUM).map_err(e)?;
            let a = file.attributes_raw().next().unwrap().map_err(e)?;
            let s = a.resident_structured_value::<NtfsIndexRoot>().map_err(e)?;
            let mut f = Fields::new();
            n(&mut f, "record_size", 4, s.index_record_size() as u64);
            n(&mut f, "used", 4, s.index_data_size() as u64);
            n(&mut f, "allocated", 4, s.index_allocated_size() as u64);
            n(&mut f, "large", 1, s.is_large_index() as u64);
            let mut dict = Fields::new();
            n(&mut dict, "used", 4, used as u64);
            n(&mut dict, "allocated", 4, alloc as u64);
            Ok(Got { fields: f, parts: None, dict })
        }
        "node" => {
            let vcn = rng.below(4) as i64;
            let mut r = Rec::dir(NUM);
            r.attrs.push(nr_simple(T_IALLOC, &u16s("$I30"), 2, 512, &[Run { lcn: Some(1000), len: 8 }], 4096, 4096));
            v.put(&r);
            let mut rec = index_record_plain(2048, vcn, &[Ent { fref: 0, key: vec![], sub: None, last: true }]);
            rec[36..40].copy_from_slice(&b[36..40]);
            let used = r32(&rec, 28) + rng.below(3) as u32 * 8;
            let alloc = r32(&rec, 32) - rng.below(3) as u32 * 8;
            w32(&mut rec, 28, used);
            w32(&mut rec, 32, alloc);
            protect(&mut rec, 40, 9);
            v.disk.write((1000 + vcn as u64) * 512, &rec);
            let fs = &mut v.disk;
            let ntfs = Ntfs::new(fs).map_err(e)?;
            let file = ntfs.file(fs, NUM).map_err(e)?;
            let al = file.attributes_raw().next().unwrap().map_err(e)?.structured_value::<_, NtfsIndexAllocation>(fs).map_err(e)?;
            let s = al.record_from_vcn(fs, 2048, Vcn::from(vcn)).map_err(e)?;
            let mut f = Fields::new();
            n(&mut f, "vcn", 8, s.vcn().value() as u64);
            n(&mut f, "used", 4, s.index_data_size() as u64);
            n(&mut f, "allocated", 4, s.index_allocated_size() as u64);
            n(&mut f, "large", 1, s.has_subnodes() as u64);
            let mut dict = Fields::new();
            n(&mut dict, "vcn", 8, vcn as u64);
            n(&mut dict, "used", 4, used as u64);
            n(&mut dict, "allocated", 4, alloc as u64);
            Ok(Got { fields: f, parts: None, dict })
        }
        x => panic!("type {}", x),
    }
}

/// An attribute list with one entry; the entry spans all the bytes given.
fn observe_list(b: &[u8], way: usize, rng: &mut Rng) -> Result<Got, String> {
    let mut v = vol();
    let mut x = b.to_vec();
    w16(&mut x, 4, b.len() as u16);
    x[7] = 26;
    let extra = rng.below(2) as usize * 32;
    x.extend(vec![0x55; extra]);
    let mut r = Rec::new(NUM);
    let a = if way == 0 { attr_resident(T_LIST, &[], 1, 0, &x) } else { nonres(&mut v, T_LIST, &x, rng) };
    r.attrs.push(a);
    v.put(&r);
    let fs = &mut v.disk;
    let ntfs = Ntfs::new(fs).map_err(e)?;
    let file = ntfs.file(fs, NUM).map_err(e)?;
    let a = file.attributes_raw().next().unwrap().map_err(e)?;
    let l = a.structured_value::<_, NtfsAttributeList>(fs).map_err(e)?;
    let en = l.entries().next(fs).ok_or("mismatch: none")?.map_err(e)?;
    let f = listent_fields(&en)?;
    let mut dict = Fields::new();
    n(&mut dict, "length", 2, b.len() as u64);
    Ok(Got { fields: f, parts: None, dict })
}

fn look(ty: &str, b: &[u8], way: usize, rng: &mut Rng) -> Result<Result<Got, String>, String> {
    guard(|| if ty == "listent" { observe_list(b, way, rng) } else { observe(ty, b, way, rng) })
}

pub fn replay(cases: &str, out: &str, seed: u64) {
    let cases = read_ndjson(cases);
    let rep = parallel(&cases, |ci, c, rep| {
        let ty = js(&c["ty"]);
        let b: Vec<u8> = ja(&c["b"]).iter().map(|x| ji(x) as u8).collect();
        for way in 0..ways(ty) {
            let mut rng = Rng::new(seed ^ (ci as u64) << 8 ^ way as u64);
            let g = look(ty, &b, way, &mut rng);
            let ok = jb(&c["ok"]);
            let bad = match &g {
                Err(m) => Some(m.clone()),
                Ok(Err(m)) if m.starts_with("mismatch") => Some(m.clone()),
                // A list that ends within the fixed part of its entry is reported as one that ends too early.
                Ok(Err(m)) if m == "Io" && !(ty == "listent" && b.len() < 26) => Some("reads beyond the structure".into()),
                Ok(Err(m)) => ok.then(|| format!("reports {}", m)),
                Ok(Ok(_)) if !ok => Some("accepts a structure that contradicts itself".into()),
                Ok(Ok(g)) => {
                    let mut want = Fields::new();
                    for (i, kv) in ja(&c["out"]).iter().enumerate() {
                        let k = js(&kv[0]);
                        want.insert(k.into(), kv[1].clone());
                        if let Some(t) = k.strip_prefix("guid:") {
                            want.insert(format!("text:{}", t), c["text"][i].clone());
                        }
                    }
                    if ty == "entry" {
                        want.remove("name");
                    }
                    if !jb(&c["known"]) {
                        let t = want.remove("type").unwrap();
                        want.insert("unknown".into(), t);
                    }
                    for (k, v) in &g.dict {
                        want.insert(k.clone(), v.clone());
                    }
                    let mut r = None;
                    for k in want.keys().chain(g.fields.keys()) {
                        if want.get(k) != g.fields.get(k) {
                            r = Some(format!("field {}: stored {:?}, reported {:?}", k, want.get(k).map(|x| x.to_string()), g.fields.get(k).map(|x| x.to_string())));
                            break;
                        }
                    }
                    if let Some(p) = &g.parts {
                        if p != &c["parts"] {
                            r = Some(format!("parts of the entry: stored {}, reported {}", c["parts"], p));
                        }
                    }
                    r
                }
            };
            if let Some(m) = bad {
                rep.violation("layout", json!({"message": format!("{} (way {}): {}", ty, way, m), "bytes": b}));
            }
            rep.add("structures", 1);
            rep.add(if ok { "decoded" } else { "rejected" }, 1);
            rep.add(&format!("of_{}", ty), 1);
        }
        if ci % 997 == 3 {
            rep.sample(4, || c.clone());
        }
    });
    rep.write(out);
}

/// Random structures; what the library reports is checked against the specification.
pub fn record(trace: &str, out: &str, seed: u64, nt: u64) {
    let mut rep = Report::default();
    let mut w = NdWriter::create(trace);
    let mut rng = Rng::new(seed ^ 0x1A70);
    for _ in 0..nt {
        let ty = *rng.pick(&["std", "name", "volinfo", "volname", "objid", "listent"]);
        let mut ev = vec![];
        for _ in 0..20 {
            let len = match ty {
                "std" => rng.range(40, 80),
                "name" => rng.range(60, 130),
                "volinfo" => rng.range(8, 20),
                "volname" => *rng.pick(&[0, 3, 20, 33, 256, 257]),
                "objid" => rng.range(10, 70),
                _ => rng.range(26, 60),
            } as usize;
            let mut b: Vec<u8> = (0..len).map(|_| if rng.chance(1, 4) { *rng.pick(&[0, 1, 0x7F, 0x80, 0xFF]) } else { rng.below(256) as u8 }).collect();
            if ty == "name" && len > 65 {
                b[64] = rng.below(((len - 66) / 2 + 2) as u64) as u8;
                b[65] = rng.below(5) as u8;
            }
            if ty == "listent" {
                b[6] = rng.below(((len - 26) / 2 + 2) as u64) as u8;
                b[7] = 26;
                w16(&mut b, 4, len as u16);
                let t = *rng.pick(&[0x10u32, 0x30, 0x80, 0x100, 0xA0, 0x81, 0xFFFF_FFFF]);
                w32(&mut b, 0, t);
            }
            let way = rng.below(ways(ty) as u64) as usize;
            let g = look(ty, &b, way, &mut rng);
            match g {
                Err(m) => rep.violation("layout-record", json!({"message": m, "type": ty, "bytes": b})),
                Ok(Err(m)) if m.starts_with("mismatch") || m == "Io" => rep.violation("layout-record", json!({"message": m, "type": ty, "bytes": b})),
                Ok(Err(m)) => ev.push(json!({"b": b, "ok": false, "out": [], "text": [], "err": m})),
                Ok(Ok(g)) => {
                    let mut o = vec![];
                    let mut t = vec![];
                    for (k, v) in g.fields {
                        if let Some(x) = k.strip_prefix("text:") {
                            t.push(json!([format!("guid:{}", x), v]));
                        } else {
                            o.push(json!([if k == "unknown" { "type".to_string() } else { k }, v]));
                        }
                    }
                    ev.push(json!({"b": b, "ok": true, "out": o, "text": t}));
                }
            }
            rep.add("structures", 1);
        }
        w.put(&json!({"ty": ty, "ev": ev}));
    }
    rep.write(out);
}
