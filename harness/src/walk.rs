//! Every public operation of the library on a volume whose metadata may say anything (C14).  What comes of the calls of every iterator
//! is recorded; a panic or an operation that exceeds its device accesses ends the walk.
use crate::disk::Disk;
use crate::util::*;
use ntfs::attribute_value::{NtfsAttributeValue, NtfsDataRuns};
use ntfs::indexes::*;
use ntfs::structured_values::*;
use ntfs::types::{NtfsPosition, Vcn};
use ntfs::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::io::{Read, Seek, SeekFrom};

thread_local! {
    static AT: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Where the walk of this thread is.
pub fn at() -> String {
    AT.with(|a| a.borrow().clone())
}
fn here(s: impl FnOnce() -> String) {
    let s = s();
    AT.with(|a| *a.borrow_mut() = s);
}

/// An index type whose entries carry data instead of a file reference.
#[derive(Clone, Debug)]
pub struct Blobs;
#[derive(Debug)]
pub struct Blob(pub Vec<u8>);
impl NtfsIndexEntryKey for Blob {
    fn key_from_slice(s: &[u8], _p: NtfsPosition) -> ntfs::Result<Self> {
        Ok(Blob(s.to_vec()))
    }
}
impl NtfsIndexEntryData for Blob {
    fn data_from_slice(s: &[u8], _p: NtfsPosition) -> ntfs::Result<Self> {
        Ok(Blob(s.to_vec()))
    }
}
impl NtfsIndexEntryType for Blobs {
    type KeyType = Blob;
}
impl NtfsIndexEntryHasData for Blobs {
    type DataType = Blob;
}

#[derive(Default)]
pub struct Walk {
    /// Calls of iterators: kind, bound, outcomes in runs.
    pub traces: BTreeMap<String, u64>,
    pub counts: BTreeMap<&'static str, u64>,
    pub errors: BTreeMap<String, u64>,
    /// Debug output of everything, which repeats the whole upcase table.
    debug: bool,
}

const ACCESSES: u64 = 200_000;
const DETAIL: usize = 24;

impl Walk {
    fn n(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    fn v<T: Debug>(&mut self, k: &'static str, r: ntfs::Result<T>) -> Option<T> {
        self.n("calls");
        match r {
            Ok(x) => {
                self.n(k);
                if self.debug {
                    let _ = format!("{:?}", x);
                }
                Some(x)
            }
            Err(e) => {
                let _ = format!("{} {:?}", e, e);
                *self.errors.entry(ename(&e)).or_insert(0) += 1;
                None
            }
        }
    }
    fn calls(&mut self, it: &'static str, bound: u64, ev: &[(&'static str, u64)]) {
        let ev: Vec<Value> = ev.iter().map(|(o, n)| json!({"o": o, "n": n})).collect();
        *self.traces.entry(json!({"it": it, "bound": bound, "ev": ev}).to_string()).or_insert(0) += 1;
    }
    /// Drives an iterator to its end, or to its first error and a little further; `f` looks at the first items.
    fn drive<S, T: Debug>(
        &mut self,
        it: &'static str,
        bound: u64,
        fs: &mut Disk,
        state: &mut S,
        mut next: impl FnMut(&mut S, &mut Disk) -> Option<ntfs::Result<T>>,
        mut f: impl FnMut(&mut Walk, &mut Disk, T, usize),
    ) {
        let mut ev: Vec<(&'static str, u64)> = vec![];
        let mut items = 0usize;
        let mut after = 0;
        loop {
            fs.accesses = 0;
            self.n("calls");
            let r = next(state, fs);
            let o = match &r {
                None => "end",
                Some(Ok(_)) => "item",
                Some(Err(_)) => "err",
            };
            match ev.last_mut() {
                Some(l) if l.0 == o => l.1 += 1,
                _ => ev.push((o, 1)),
            }
            match r {
                Some(Ok(x)) => {
                    items += 1;
                    if items <= DETAIL {
                        here(|| format!("{} item {}", it, items));
                        if self.debug && items <= 2 {
                            let _ = format!("{:?}", x);
                        }
                        f(self, fs, x, items);
                        here(|| format!("{} after item {}", it, items));
                    }
                }
                Some(Err(e)) => {
                    let _ = format!("{} {:?}", e, e);
                    *self.errors.entry(ename(&e)).or_insert(0) += 1;
                }
                None => {}
            }
            if o != "item" || after > 0 {
                after += 1;
            }
            if after > 4 || items as u64 > bound {
                break;
            }
        }
        self.calls(it, bound, &ev);
    }
}

fn reads(w: &mut Walk, fs: &mut Disk, v: &mut NtfsAttributeValue, rng: &mut Rng) {
    let mut buf = [0u8; 700];
    let _ = (v.len(), v.is_empty(), v.data_position());
    for _ in 0..12 {
        fs.accesses = 0;
        let k = *rng.pick(&[700usize, 512, 100, 1, 0]);
        match v.read(fs, &mut buf[..k]) {
            Ok(n) => {
                assert!(n <= k, "VH read more than asked for");
                w.n("reads");
                if n == 0 && k > 0 {
                    break;
                }
            }
            Err(e) => {
                *w.errors.entry(ename(&e)).or_insert(0) += 1;
                break;
            }
        }
    }
    let len = v.len();
    let targets = [
        SeekFrom::Start(0),
        SeekFrom::Start(len),
        SeekFrom::Start(len.saturating_sub(3)),
        SeekFrom::Start(u64::MAX),
        SeekFrom::Start(1 << 63),
        SeekFrom::End(0),
        SeekFrom::End(-1),
        SeekFrom::End(i64::MIN),
        SeekFrom::End(i64::MAX),
        SeekFrom::Current(i64::MIN),
        SeekFrom::Current(i64::MAX),
        SeekFrom::Current(-7),
        SeekFrom::Current(700),
        SeekFrom::Start(rng.below(4096)),
        SeekFrom::Start(rng.next()),
        SeekFrom::Current(-(rng.below(4096) as i64)),
    ];
    for _ in 0..6 {
        fs.accesses = 0;
        let t = *rng.pick(&targets);
        match v.seek(fs, t) {
            Ok(_) => w.n("seeks"),
            Err(e) => *w.errors.entry(ename(&e)).or_insert(0) += 1,
        }
        let _ = (v.data_position(), v.stream_position());
        if rng.chance(1, 2) {
            match v.read(fs, &mut buf[..100]) {
                Ok(_) => w.n("reads"),
                Err(e) => *w.errors.entry(ename(&e)).or_insert(0) += 1,
            }
        }
    }
    let mut a = v.clone().attach(fs);
    let _ = (a.len(), a.is_empty(), a.data_position());
    let _ = a.seek(SeekFrom::Start(5));
    let _ = a.read_exact(&mut buf[..50]);
    let _ = a.seek(SeekFrom::End(-20));
    let _ = a.read(&mut buf);
    let _ = a.detach();
}

fn runs(w: &mut Walk, fs: &mut Disk, r: &mut NtfsDataRuns, bound: u64) {
    w.drive("data runs", bound, fs, r, |s, _| s.next(), |w, fs, mut run, _| {
        let _ = (run.allocated_size(), run.data_position());
        let mut b = [0u8; 40];
        for t in [SeekFrom::Start(0), SeekFrom::End(-9), SeekFrom::Current(-1000000), SeekFrom::Start(u64::MAX), SeekFrom::End(i64::MAX), SeekFrom::Current(i64::MIN)] {
            let _ = run.seek(fs, t);
            let _ = (run.data_position(), run.stream_position());
            let r = run.read(fs, &mut b);
            w.v("run reads", r);
        }
    });
}

fn file_name(w: &mut Walk, f: &NtfsFileName) {
    let _ = (f.access_time(), f.creation_time(), f.modification_time(), f.mft_record_modification_time());
    let _ = (f.allocated_size(), f.data_size(), f.is_directory(), f.name_length());
    let _ = format!("{:?} {} {:?} {:?}", f.namespace(), f.file_attributes(), f.parent_directory_reference(), f.name());
    let _ = f.name().to_string_lossy();
    let _ = (f.parent_directory_reference().file_record_number(), f.parent_directory_reference().sequence_number());
    for t in [f.access_time(), f.creation_time()] {
        let _ = t.nt_timestamp();
        #[allow(unused)]
        let o: time::OffsetDateTime = t.into();
    }
    w.n("file names");
}

fn entry<E: NtfsIndexEntryType>(w: &mut Walk, e: &NtfsIndexEntry<E>) {
    let _ = (e.index_entry_length(), e.key_length(), e.position());
    let _ = format!("{:?} {}", e.flags(), e.flags());
    if let Some(r) = e.subnode_vcn() {
        w.v("subnode numbers", r);
    }
    if let Some(r) = e.key() {
        w.v("keys", r);
    }
}
fn name_entry(w: &mut Walk, fs: &mut Disk, ntfs: &Ntfs, e: &NtfsIndexEntry<NtfsFileNameIndex>, i: usize) {
    entry(w, e);
    if let Some(Ok(k)) = e.key() {
        file_name(w, &k);
    }
    let _ = e.file_reference();
    if i <= 3 {
        fs.accesses = 0;
        let r = e.to_file(ntfs, fs);
        w.v("files of entries", r);
    }
}
fn blob_entry(w: &mut Walk, e: &NtfsIndexEntry<Blobs>) {
    entry(w, e);
    let _ = e.data_length();
    if let Some(r) = e.data() {
        w.v("entry data", r);
    }
}

fn list(w: &mut Walk, fs: &mut Disk, ntfs: &Ntfs, l: &NtfsAttributeList, rng: &mut Rng, dev: u64) {
    let _ = l.position();
    let mut it = l.entries();
    let mut r2 = Rng::new(rng.next());
    w.drive("list entries", dev / 24 + 64, fs, &mut it, |s, fs| s.next(fs), |w, fs, e, i| {
        let _ = (e.base_file_reference(), e.instance(), e.list_entry_length(), e.lowest_vcn(), e.name_length(), e.position());
        let _ = e.name().to_string_lossy();
        w.v("entry types", e.ty());
        let r = e.lowest_vcn().offset(ntfs);
        w.v("vcn offsets", r);
        if i <= 8 {
            fs.accesses = 0;
            let r = e.to_file(ntfs, fs);
            if let Some(f) = w.v("files of list entries", r) {
                // to_attribute documents its panic for the record of another number; that is what the caller may not pass.
                if f.file_record_number() == e.base_file_reference().file_record_number() {
                    let r = e.to_attribute(&f);
                    if let Some(a) = w.v("attributes of list entries", r) {
                        attribute(w, fs, ntfs, &a, &mut r2, dev, false);
                    }
                }
            }
        }
    });
}

fn attribute(w: &mut Walk, fs: &mut Disk, ntfs: &Ntfs, a: &NtfsAttribute, rng: &mut Rng, dev: u64, deep: bool) {
    let frs = ntfs.file_record_size() as u64;
    let _ = (a.attribute_length(), a.instance(), a.is_resident(), a.name_length(), a.position(), a.value_length());
    let _ = format!("{:?} {}", a.flags(), a.flags());
    if w.debug {
        let _ = format!("{:?}", a);
    }
    w.v("attribute types", a.ty());
    if let Some(n) = w.v("attribute names", a.name()) {
        let _ = n.to_string_lossy();
    }
    fs.accesses = 0;
    here(|| format!("value of {:?}", a.ty()));
    let r = a.value(fs);
    if let Some(mut v) = w.v("values", r) {
        if let NtfsAttributeValue::NonResident(n) = &v {
            let _ = n.data_runs().position();
            runs(w, fs, &mut n.data_runs(), frs + 8);
        }
        if let NtfsAttributeValue::Resident(r) = &v {
            let _ = (r.data(), r.len(), r.is_empty(), r.data_position());
        }
        here(|| format!("reading a value of {:?}", a.ty()));
        reads(w, fs, &mut v, rng);
    }
    here(|| format!("structured value of {:?}", a.ty()));
    macro_rules! sv {
        ($t:ty) => {{
            fs.accesses = 0;
            let r = a.structured_value::<_, $t>(fs);
            w.v("structured values", r)
        }};
    }
    macro_rules! rsv {
        ($t:ty) => {{
            let r = a.resident_structured_value::<$t>();
            w.v("resident structured values", r)
        }};
    }
    let all = rng.chance(1, 6);
    let ty = a.ty().ok();
    let is = |t: NtfsAttributeType| all || ty == Some(t);
    if is(NtfsAttributeType::StandardInformation) {
        for s in [rsv!(NtfsStandardInformation), sv!(NtfsStandardInformation)].into_iter().flatten() {
            let _ = (s.access_time(), s.creation_time(), s.modification_time(), s.mft_record_modification_time(), s.class_id(), s.maximum_versions());
            let _ = (s.owner_id(), s.quota_charged(), s.security_id(), s.usn(), s.version());
            let _ = format!("{:?} {} {:?}", s.file_attributes(), s.file_attributes(), s);
        }
    }
    if is(NtfsAttributeType::FileName) {
        if let Some(f) = sv!(NtfsFileName) {
            file_name(w, &f);
        }
    }
    if is(NtfsAttributeType::ObjectId) {
        for o in [rsv!(NtfsObjectId), sv!(NtfsObjectId)].into_iter().flatten() {
            let _ = format!("{} {:?} {:?} {:?}", o.object_id(), o.birth_object_id(), o.birth_volume_id(), o.domain_id());
        }
    }
    if is(NtfsAttributeType::VolumeName) {
        for o in [rsv!(NtfsVolumeName), sv!(NtfsVolumeName)].into_iter().flatten() {
            let _ = (o.name_length(), o.name().to_string_lossy());
        }
    }
    if is(NtfsAttributeType::VolumeInformation) {
        for o in [rsv!(NtfsVolumeInformation), sv!(NtfsVolumeInformation)].into_iter().flatten() {
            let _ = (o.major_version(), o.minor_version(), format!("{:?} {}", o.flags(), o.flags()));
        }
    }
    if is(NtfsAttributeType::IndexRoot) {
        for r in [rsv!(NtfsIndexRoot), sv!(NtfsIndexRoot)].into_iter().flatten() {
            let _ = (r.index_allocated_size(), r.index_data_size(), r.index_record_size(), r.is_large_index(), r.position());
            if let Some(mut it) = w.v("root entries", r.entries::<NtfsFileNameIndex>()) {
                w.drive("root entries", frs / 16 + 8, fs, &mut it, |s, _| s.next(), |w, fs, e, i| name_entry(w, fs, ntfs, &e, i));
            }
            if let Some(mut it) = w.v("root entries", r.entries::<Blobs>()) {
                w.drive("root entries", frs / 16 + 8, fs, &mut it, |s, _| s.next(), |w, _, e, _| blob_entry(w, &e));
            }
        }
    }
    if is(NtfsAttributeType::IndexAllocation) {
        if let Some(al) = sv!(NtfsIndexAllocation) {
            for irs in [1024u32, 2048, 4096, 0, 40, 512, 0x8000_0000, u32::MAX] {
                here(|| format!("index allocation, records of {}", irs));
                let mut it = al.records(irs);
                let bound = dev / u64::max(irs as u64, 24) + 64;
                let per = irs as u64 / 16 + 8;
                w.drive("index records", bound, fs, &mut it, |s, fs| s.next(fs), |w, fs, r, i| {
                    let _ = (r.vcn(), r.has_subnodes(), r.index_allocated_size(), r.index_data_size());
                    if i % 2 == 0 {
                        if let Some(mut it) = w.v("record entries", r.entries::<Blobs>()) {
                            w.drive("record entries", per, fs, &mut it, |s, _| s.next(), |w, _, e, _| blob_entry(w, &e));
                        }
                    } else if let Some(mut it) = w.v("record entries", r.entries::<NtfsFileNameIndex>()) {
                        w.drive("record entries", per, fs, &mut it, |s, _| s.next(), |w, fs, e, i| name_entry(w, fs, ntfs, &e, i + 3));
                    }
                });
                if irs == 1024 {
                    let mut at = al.records(irs).attach(fs);
                    let _ = at.next().map(|r| r.is_ok());
                    let _ = at.detach();
                }
                for v in [0i64, 1, 2, 3, -1, i64::MIN, i64::MAX, 1 << 40, rng.below(20) as i64] {
                    fs.accesses = 0;
                    let r = al.record_from_vcn(fs, irs, Vcn::from(v));
                    w.v("records by number", r);
                }
                // other sizes are left out where nothing can be read anyway
                if irs == 4096 && !deep && !rng.chance(1, 4) {
                    break;
                }
            }
        }
    }
    if deep && is(NtfsAttributeType::AttributeList) {
        if let Some(l) = sv!(NtfsAttributeList) {
            here(|| "attribute list".into());
            list(w, fs, ntfs, &l, rng, dev);
        }
    }
}

fn directory(w: &mut Walk, fs: &mut Disk, ntfs: &Ntfs, f: &NtfsFile, names: &[String], upcase: bool, rng: &mut Rng, dev: u64) {
    fs.accesses = 0;
    let r = f.directory_index(fs);
    let Some(ix) = w.v("directory indexes", r) else { return };
    let mut it = ix.entries();
    if w.debug {
        let _ = format!("{:?}", it);
    }
    // NtfsIndexEntries lends its items, so it cannot be driven like the others
    let bound = dev / 16 + 64;
    let mut ev: Vec<(&'static str, u64)> = vec![];
    let (mut items, mut after) = (0u64, 0);
    loop {
        fs.accesses = 0;
        w.n("calls");
        here(|| format!("directory {} entry {}", f.file_record_number(), items));
        let o = match it.next(fs) {
            None => "end",
            Some(Ok(e)) => {
                items += 1;
                let e = e.clone();
                if items as usize <= DETAIL {
                    name_entry(w, fs, ntfs, &e, items as usize);
                }
                "item"
            }
            Some(Err(e)) => {
                let _ = format!("{} {:?}", e, e);
                *w.errors.entry(ename(&e)).or_insert(0) += 1;
                "err"
            }
        };
        match ev.last_mut() {
            Some(l) if l.0 == o => l.1 += 1,
            _ => ev.push((o, 1)),
        }
        if o != "item" || after > 0 {
            after += 1;
        }
        if after > 4 || items > bound {
            break;
        }
    }
    w.calls("directory entries", bound, &ev);
    let mut finder = ix.finder();
    if upcase {
        for n in names {
            fs.accesses = 0;
            here(|| format!("search for {}", n));
            w.n("calls");
            match NtfsFileNameIndex::find(&mut finder, ntfs, fs, n) {
                None => w.n("not found"),
                Some(Ok(e)) => {
                    let e = e.clone();
                    w.n("found");
                    name_entry(w, fs, ntfs, &e, 1);
                }
                Some(Err(e)) => *w.errors.entry(ename(&e)).or_insert(0) += 1,
            }
        }
    }
    for k in 0..3u64 {
        fs.accesses = 0;
        here(|| format!("search by comparison {}", k));
        let r = finder.find(fs, |_| match k {
            0 => std::cmp::Ordering::Less,
            1 => std::cmp::Ordering::Greater,
            _ => [std::cmp::Ordering::Less, std::cmp::Ordering::Greater, std::cmp::Ordering::Equal][rng_free(dev, k) as usize % 3],
        });
        let _ = r.map(|r| r.is_ok());
    }
    let _ = rng;
}
fn rng_free(a: u64, b: u64) -> u64 {
    Rng::new(a.wrapping_add(b)).next()
}

/// Walks the whole volume.
pub fn walk(fs: &mut Disk, names: &[String], files: &[u64], rng: &mut Rng) -> Walk {
    let mut w = Walk { debug: rng.chance(1, 300), ..Walk::default() };
    // a device that ends early could have held as much as the whole one
    let dev = u64::max(fs.size, 16 << 20);
    fs.budget = ACCESSES;
    fs.accesses = 0;
    here(|| "Ntfs::new".into());
    let r = Ntfs::new(fs);
    let Some(mut ntfs) = w.v("volumes opened", r) else { return w };
    here(|| "read_upcase_table".into());
    fs.accesses = 0;
    let r = ntfs.read_upcase_table(fs);
    let upcase = w.v("upcase tables", r).is_some();
    let ntfs = &ntfs;
    let _ = (ntfs.cluster_size(), ntfs.sector_size(), ntfs.file_record_size(), ntfs.size(), ntfs.serial_number(), ntfs.mft_position());
    here(|| "volume_info".into());
    fs.accesses = 0;
    let r = ntfs.volume_info(fs);
    w.v("volume infos", r);
    here(|| "volume_name".into());
    fs.accesses = 0;
    if let Some(r) = ntfs.volume_name(fs) {
        w.v("volume names", r);
    }
    here(|| "root_directory".into());
    fs.accesses = 0;
    let r = ntfs.root_directory(fs);
    w.v("root directories", r);
    let frs = ntfs.file_record_size() as u64;
    for n in files.iter().copied() {
        here(|| format!("file {}", n));
        fs.accesses = 0;
        let r = ntfs.file(fs, n);
        let Some(f) = w.v("files", r) else { continue };
        let _ = (f.allocated_size(), f.data_size(), f.file_record_number(), f.hard_link_count(), f.is_directory(), f.position(), f.sequence_number());
        let _ = format!("{:?} {}", f.flags(), f.flags());
        if w.debug {
            let _ = format!("{:?}", f);
        }
        let _ = f.ntfs();
        w.v("infos", f.info());
        here(|| format!("file {} raw attributes", n));
        let mut it = f.attributes_raw();
        let mut r2 = Rng::new(rng.next());
        w.drive("raw attributes", frs / 8 + 8, fs, &mut it, |s, _| s.next(), |w, fs, a, _| attribute(w, fs, ntfs, &a, &mut r2, dev, true));
        here(|| format!("file {} attributes", n));
        let mut it = f.attributes();
        let mut n_at = 0;
        w.drive("attributes", frs / 8 + dev / 24 + 64, fs, &mut it, |s, fs| s.next(fs), |w, fs, item, _| {
            let r = item.to_attribute();
            if let Some(a) = w.v("attributes", r) {
                n_at += 1;
                // those in the record itself were looked at already
                if n_at > 1 {
                    attribute(w, fs, ntfs, &a, &mut r2, dev, false);
                }
            }
        });
        let mut at = f.attributes().attach(fs);
        for _ in 0..3 {
            if let Some(r) = at.next() {
                let _ = r.map(|i| i.to_attribute().map(|a| a.instance()));
            }
        }
        let _ = at.detach();
        if upcase {
            for s in ["", "s", "abc", "stream number 03 with a long name", "none"] {
                here(|| format!("file {} data {:?}", n, s));
                fs.accesses = 0;
                if let Some(r) = f.data(fs, s) {
                    if let Some(item) = w.v("data", r) {
                        let r = item.to_attribute();
                        if let Some(a) = w.v("data attributes", r) {
                            attribute(&mut w, fs, ntfs, &a, &mut r2, dev, false);
                        }
                    }
                }
            }
        }
        for (ns, p) in [(None, None), (Some(NtfsFileNamespace::Win32), None), (Some(NtfsFileNamespace::Dos), Some(5u64)), (None, Some(7))] {
            here(|| format!("file {} name", n));
            fs.accesses = 0;
            if let Some(r) = f.name(fs, ns, p) {
                w.v("names", r);
            }
        }
        directory(&mut w, fs, ntfs, &f, names, upcase, &mut r2, dev);
    }
    w
}
