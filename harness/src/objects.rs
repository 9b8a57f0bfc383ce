//! Objects sharing one device reader (Objects.tla, C15) and device faults (C16).  Histories from the specification are carried out with
//! the library on a rich volume; what comes of every operation is recorded and validated against the specification.
use crate::disk::{Disk, Fault};
use crate::rich::{self, Rich};
use crate::util::*;
use ntfs::attribute_value::{NtfsAttributeValue, NtfsDataRuns};
use ntfs::indexes::NtfsFileNameIndex;
use ntfs::structured_values::*;
use ntfs::types::Vcn;
use ntfs::*;
use serde_json::{json, Value};
use std::io::{Read, Seek, SeekFrom};
use std::sync::OnceLock;

pub const VALS: [&str; 6] = ["nr", "list", "listnr", "res", "stream", "base"];
pub const ITS: [&str; 7] = ["attrs", "attrs2", "raw", "dir", "records", "entries", "runs"];
pub const PURES: [&str; 2] = ["finder", "volume"];

pub enum H<'a> {
    Val(NtfsAttributeValue<'a, 'a>),
    Attrs(NtfsAttributes<'a, 'a>),
    Raw(NtfsAttributesRaw<'a, 'a>),
    Dir(NtfsIndexEntries<'a, 'a, 'a, NtfsFileNameIndex>),
    Records(NtfsIndexRecords<'a, 'a>),
    Entries(NtfsAttributeListEntries<'a, 'a>),
    Runs(NtfsDataRuns<'a, 'a>),
    Finder(NtfsIndexFinder<'a, 'a, 'a, NtfsFileNameIndex>),
    Volume,
}
impl<'a> H<'a> {
    fn dup(&self) -> Option<H<'a>> {
        Some(match self {
            H::Val(x) => H::Val(x.clone()),
            H::Attrs(x) => H::Attrs(x.clone()),
            H::Raw(x) => H::Raw(x.clone()),
            H::Dir(x) => H::Dir(x.clone()),
            H::Records(x) => H::Records(x.clone()),
            H::Entries(x) => H::Entries(x.clone()),
            H::Runs(x) => H::Runs(x.clone()),
            H::Finder(_) | H::Volume => return None,
        })
    }
}

pub struct Env<'a> {
    pub rich: &'a Rich,
    pub ntfs: &'a Ntfs,
    pub files: Vec<(u64, &'a NtfsFile<'a>)>,
    pub data: Vec<(&'static str, NtfsAttribute<'a, 'a>)>,
    pub list: &'a NtfsAttributeList<'a, 'a>,
    pub alloc: &'a NtfsIndexAllocation<'a, 'a>,
    pub index: &'a NtfsIndex<'a, 'a, NtfsFileNameIndex>,
}

type R<T> = std::result::Result<T, String>;
fn er(x: NtfsError) -> String {
    match x {
        NtfsError::Io(_) => "Io".into(),
        x => ename(&x),
    }
}

/// Opens everything once on a device without faults and passes it on.
pub fn with_env<T>(rich: &Rich, fs: &mut Disk, f: impl FnOnce(&Env, &mut Disk) -> T) -> R<T> {
    let mut ntfs = Ntfs::new(fs).map_err(er)?;
    ntfs.read_upcase_table(fs).map_err(er)?;
    let ntfs = &ntfs;
    let nums = [rich::NR, rich::LIST, rich::LISTNR, rich::RES, 5, rich::SMALLDIR, 3];
    let mut files = vec![];
    for n in nums {
        files.push(ntfs.file(fs, n).map_err(er)?);
    }
    let get = |n: u64| &files[nums.iter().position(|x| *x == n).unwrap()];
    let specs = [("nr", rich::NR, ""), ("list", rich::LIST, ""), ("listnr", rich::LISTNR, "s"), ("res", rich::RES, ""), ("stream", rich::NR, "abc"), ("base", rich::LISTNR, "t")];
    let mut items = vec![];
    for (_, n, s) in specs {
        items.push(get(n).data(fs, s).ok_or("no data")?.map_err(er)?);
    }
    let mut data = vec![];
    for (i, (k, _, _)) in specs.iter().enumerate() {
        data.push((*k, items[i].to_attribute().map_err(er)?));
    }
    let lattr = get(rich::LISTNR).attributes_raw().nth(1).unwrap().map_err(er)?;
    let list = lattr.structured_value::<_, NtfsAttributeList>(fs).map_err(er)?;
    let mut all = get(5).attributes();
    let aitem = loop {
        let i = all.next(fs).ok_or("no allocation")?.map_err(er)?;
        if i.to_attribute().map_err(er)?.ty().map_err(er)? == NtfsAttributeType::IndexAllocation {
            break i;
        }
    };
    let aattr = aitem.to_attribute().map_err(er)?;
    let alloc = aattr.structured_value::<_, NtfsIndexAllocation>(fs).map_err(er)?;
    let index = get(5).directory_index(fs).map_err(er)?;
    let env = Env { rich, ntfs, files: nums.iter().map(|n| (*n, get(*n))).collect(), data, list: &list, alloc: &alloc, index: &index };
    Ok(f(&env, fs))
}

impl<'a> Env<'a> {
    pub fn file(&self, n: u64) -> &'a NtfsFile<'a> {
        self.files.iter().find(|x| x.0 == n).unwrap().1
    }
    /// Opening a value may access the device.
    pub fn open(&self, k: &str, fs: &mut Disk) -> R<H<'_>> {
        Ok(match k {
            "attrs" => H::Attrs(self.file(rich::LISTNR).attributes()),
            "attrs2" => H::Attrs(self.file(rich::LIST).attributes()),
            "raw" => H::Raw(self.file(rich::NR).attributes_raw()),
            "dir" => H::Dir(self.index.entries()),
            "records" => H::Records(self.alloc.records(self.rich.irs)),
            "entries" => H::Entries(self.list.entries()),
            "runs" => match self.data[0].1.value(fs).map_err(er)? {
                NtfsAttributeValue::NonResident(v) => H::Runs(v.data_runs()),
                _ => return Err("not non-resident".into()),
            },
            "finder" => H::Finder(self.index.finder()),
            "volume" => H::Volume,
            k => H::Val(self.data.iter().find(|x| x.0 == k).unwrap().1.value(fs).map_err(er)?),
        })
    }
    pub fn stream(&self, k: &str) -> &'a [u8] {
        let (n, s) = match k {
            "nr" => (rich::NR, ""),
            "list" => (rich::LIST, ""),
            "listnr" => (rich::LISTNR, "s"),
            "res" => (rich::RES, ""),
            "base" => (rich::LISTNR, "t"),
            _ => (rich::NR, "abc"),
        };
        &self.rich.streams.iter().find(|x| x.0 == n && x.1 == s).unwrap().2
    }
}

fn attr_text(a: &NtfsAttribute) -> R<String> {
    Ok(format!("{:?} {:?} {} {} {:?}", a.ty().map_err(er)?, a.name().map_err(er)?.0, a.instance(), a.value_length(), a.position().value()))
}

/// The same with everything the value has.
fn item_text(i: &NtfsAttributeItem, calm: &mut Disk) -> R<String> {
    let a = i.to_attribute().map_err(er)?;
    let mut v = a.value(calm).map_err(er)?;
    let (mut sum, mut n, mut b) = (0u64, 0u64, [0u8; 700]);
    // (a table or so is known by its beginning)
    while n < 8000 {
        let k = v.read(calm, &mut b).map_err(er)?;
        if k == 0 {
            break;
        }
        n += k as u64;
        b[..k].iter().for_each(|x| sum = sum.wrapping_mul(31).wrapping_add(*x as u64 + 1));
    }
    Ok(format!("{} {} {:x}", attr_text(&a)?, n, sum))
}

/// The next item of an iterator as text.
pub fn next(h: &mut H, fs: &mut Disk, attach: bool) -> Option<R<String>> {
    fn t<T>(r: ntfs::Result<T>, f: impl Fn(&T) -> R<String>) -> R<String> {
        r.map_err(er).and_then(|x| f(&x))
    }
    match h {
        H::Attrs(x) => {
            let r = if attach {
                let mut a = x.clone().attach(fs);
                let r = a.next();
                *x = a.detach();
                r
            } else {
                x.next(fs)
            };
            r.map(|r| r.map_err(er).and_then(|i| fs.calm(|c| item_text(&i, c))))
        }
        H::Raw(x) => x.next().map(|r| t(r, attr_text)),
        H::Dir(x) => x.next(fs).map(|r| {
            t(r, |e| Ok(format!("{} {:?} {:?}", e.file_reference().file_record_number(), e.key().transpose().map_err(er)?.map(|k| k.name().0.to_vec()), e.position().value())))
        }),
        H::Records(x) => {
            let f = |r: &NtfsIndexRecord| Ok(format!("{} {} {} {}", r.vcn(), r.index_data_size(), r.has_subnodes(), r.entries::<NtfsFileNameIndex>().map_err(er)?.count()));
            if attach {
                let mut a = x.clone().attach(fs);
                let r = a.next();
                *x = a.detach();
                r.map(|r| t(r, f))
            } else {
                x.next(fs).map(|r| t(r, f))
            }
        }
        H::Entries(x) => {
            let f = |e: &NtfsAttributeListEntry| {
                Ok(format!("{:?} {} {} {:?} {:?}", e.ty().map_err(er)?, e.lowest_vcn(), e.base_file_reference().file_record_number(), e.name().0, e.position().value()))
            };
            x.next(fs).map(|r| t(r, f))
        }
        H::Runs(x) => x.next().map(|r| t(r, |d| Ok(format!("{:?} {}", d.data_position().value(), d.allocated_size())))),
        _ => unreachable!(),
    }
}

pub const NASK: usize = 23;
/// Questions with one answer each.
pub fn ask(env: &Env, h: &mut H, q: usize, fs: &mut Disk) -> R<String> {
    if let H::Finder(f) = h {
        let names = ["a", "zz", "LIST", "small", "", "x", "nr", "mm", "f", "Listnr", "o", "empty"];
        let n = names[q % names.len()];
        return match NtfsFileNameIndex::find(f, env.ntfs, fs, n) {
            None => Ok("none".into()),
            Some(r) => r.map_err(er).map(|e| format!("{} {:?}", e.file_reference().file_record_number(), e.position().value())),
        };
    }
    let file = |n: u64, fs: &mut Disk| -> R<String> {
        let f = env.ntfs.file(fs, n).map_err(er)?;
        let mut s = format!("{} {} {} {} {:?} {:?}", f.file_record_number(), f.sequence_number(), f.data_size(), f.hard_link_count(), f.flags(), f.position().value());
        for a in f.attributes_raw() {
            s += &attr_text(&a.map_err(er)?)?;
        }
        Ok(s)
    };
    let name = |n: u64, ns: Option<NtfsFileNamespace>, p: Option<u64>, fs: &mut Disk| -> R<String> {
        match env.file(n).name(fs, ns, p) {
            None => Ok("none".into()),
            Some(r) => r.map_err(er).map(|x| format!("{:?} {:?}", x.name().0, x.creation_time())),
        }
    };
    let data = |n: u64, s: &str, fs: &mut Disk| -> R<String> {
        match env.file(n).data(fs, s) {
            None => Ok("none".into()),
            Some(r) => r.map_err(er).and_then(|x| fs.calm(|c| item_text(&x, c))),
        }
    };
    match q % NASK {
        0 => Ntfs::new(fs).map_err(er).map(|n| format!("{} {} {} {:?} {}", n.cluster_size(), n.size(), n.serial_number(), n.mft_position().value(), n.file_record_size())),
        1 => file(rich::NR, fs),
        2 => file(30, fs),
        3 => file(9999, fs).or_else(|e| if e == "Io" { Err(e) } else { Ok(e) }),
        4 => env.ntfs.volume_name(fs).map(|r| r.map_err(er).map(|v| format!("{:?}", v.name().0))).unwrap_or(Ok("none".into())),
        5 => env.ntfs.volume_info(fs).map_err(er).map(|v| format!("{}.{} {:?}", v.major_version(), v.minor_version(), v.flags())),
        6 => name(rich::LISTNR, None, None, fs),
        7 => name(rich::LIST, Some(NtfsFileNamespace::Win32), Some(5), fs),
        8 => name(rich::LIST, Some(NtfsFileNamespace::Dos), None, fs),
        9 => data(rich::LISTNR, "S", fs),
        10 => data(rich::LISTNR, "stream number 01 with a LONG name", fs),
        11 => data(rich::LIST, "", fs),
        12 => data(rich::LIST, "none of these", fs),
        13 => env.file(5).directory_index(fs).map_err(er).and_then(|i| {
            let mut s = String::new();
            let mut it = i.entries();
            for _ in 0..3 {
                let e = it.next(fs).ok_or("few")?.map_err(er)?;
                s += &format!("{:?} ", e.position().value());
            }
            Ok(s)
        }),
        14 | 15 => {
            let v = if q % NASK == 14 { 0 } else { 6 } * env.rich.irs as i64 / 2;
            let unit = if env.ntfs.cluster_size() <= env.rich.irs { env.ntfs.cluster_size() as i64 } else { 512 };
            env.alloc.record_from_vcn(fs, env.rich.irs, Vcn::from(v / unit)).map_err(er).map(|r| format!("{} {} {}", r.vcn(), r.index_data_size(), r.index_allocated_size()))
        }
        16 => {
            let mut it = env.list.entries();
            let mut s = String::new();
            for _ in 0..4 {
                let e = it.next(fs).ok_or("few")?.map_err(er)?;
                let f = e.to_file(env.ntfs, fs).map_err(er)?;
                s += &attr_text(&e.to_attribute(&f).map_err(er)?)?;
            }
            Ok(s)
        }
        17 => {
            let mut it = env.index.entries();
            let e = it.next(fs).ok_or("few")?.map_err(er)?;
            e.to_file(env.ntfs, fs).map_err(er).map(|f| format!("{} {:?}", f.file_record_number(), f.position().value()))
        }
        18 => env.file(rich::NR).info().map_err(er).map(|i| format!("{:?} {:?}", i.creation_time(), i.owner_id())),
        19 => env.ntfs.root_directory(fs).map_err(er).map(|f| format!("{:?}", f.position().value())),
        20 => {
            // a whole value by exact reads
            let mut v = env.data[2].1.value(fs).map_err(er)?;
            let mut b = vec![0u8; env.stream("listnr").len()];
            v.read_exact(fs, &mut b).map_err(er)?;
            Ok(if b == env.stream("listnr") { "content".into() } else { "other bytes".into() })
        }
        22 => data(rich::LISTNR, "T", fs),
        _ => {
            let a = env.file(rich::LISTNR).attributes().next(fs).ok_or("few")?.map_err(er)?;
            fs.calm(|c| item_text(&a, c))
        }
    }
}
/// The second time, another table has been there (and was read) before.
pub fn upcase(fs: &mut Disk, rich: &Rich, again: bool, plan: Option<(u64, Fault)>) -> R<String> {
    let set = |fs: &mut Disk| {
        fs.plan.extend(plan);
        fs.accesses = 0;
    };
    if !again {
        set(fs);
    }
    let mut n = Ntfs::new(fs).map_err(er)?;
    if again {
        let mut other = fs.fork();
        other.write(rich.table, &(0..65536u32).flat_map(|c| (c as u16).to_le_bytes()).collect::<Vec<u8>>());
        n.read_upcase_table(&mut other).map_err(er)?;
        set(fs);
    }
    n.read_upcase_table(fs).map_err(er)?;
    let f = n.file(fs, rich::NR).map_err(er)?;
    let mut s = String::new();
    for name in ["ABC", "Abc", "abd"] {
        s += &format!("{:?} ", f.data(fs, name).map(|r| r.map(|_| ()).map_err(er)));
    }
    Ok(s)
}

/// What the objects do when used alone on a device without faults.
pub struct Solo {
    pub items: Vec<(&'static str, Vec<String>)>,
    pub answers: Vec<(&'static str, Vec<String>)>,
}
pub fn solo(env: &Env, fs: &mut Disk) -> R<Solo> {
    let mut s = Solo { items: vec![], answers: vec![] };
    for k in ITS {
        let mut h = env.open(k, fs)?;
        let mut v = vec![];
        while let Some(x) = next(&mut h, fs, false) {
            v.push(x.map_err(|e| format!("{} {}", k, e))?);
            if v.len() > 1000 {
                return Err(format!("{} does not end", k));
            }
        }
        if v.is_empty() || (1..v.len()).any(|i| v[..i].contains(&v[i])) {
            return Err(format!("items of {} are not distinct: {:?}", k, v));
        }
        s.items.push((k, v));
    }
    for k in PURES {
        let mut h = env.open(k, fs)?;
        let mut v = vec![];
        for q in 0..NASK {
            v.push(ask(env, &mut h, q, fs).map_err(|e| format!("{} {} {}", k, q, e))?);
        }
        s.answers.push((k, v));
    }
    Ok(s)
}

fn small(v: u64) -> u64 {
    v.min(2_000_000_000)
}

pub struct Live<'e> {
    h: H<'e>,
    k: &'static str,
    at: usize,
}

/// One operation with at most some faults planned; returns the event.
pub fn perform(env: &Env, so: &Solo, live: &mut Live, fs: &mut Disk, op: &str, s: i64, a: i64, plan: &[(u64, Fault)], mode: u64) -> Value {
    fs.reset_faults();
    fs.salt = mode;
    fs.budget = 1_000_000;
    for (i, f) in plan {
        fs.plan.insert(*i, *f);
    }
    let k = live.k;
    let mut m = 0u64;
    let mut pos = 0u64;
    let mut good = true;
    let mut arg = a;
    let res: String = match op {
        "read" | "exact" => {
            let content = env.stream(k);
            let H::Val(v) = &mut live.h else { unreachable!() };
            let before = v.stream_position();
            let mut b = vec![0xA5u8; a as usize];
            let r: std::result::Result<usize, bool> = match (op, mode % 3) {
                ("read", 0) => {
                    let mut at = v.clone().attach(fs);
                    let r = Read::read(&mut at, &mut b).map_err(|_| true);
                    *v = at.detach();
                    r
                }
                ("read", _) => v.read(fs, &mut b).map_err(|e| er(e) == "Io"),
                (_, 0) => {
                    let mut at = v.clone().attach(fs);
                    let r = Read::read_exact(&mut at, &mut b).map_err(|_| true);
                    *v = at.detach();
                    r.map(|_| a as usize)
                }
                _ => v.read_exact(fs, &mut b).map_err(|e| er(e) == "Io").map(|_| a as usize),
            };
            pos = v.stream_position();
            let p = before as usize;
            match r {
                Ok(n) => {
                    m = n as u64;
                    good = n <= b.len() && (n == 0 || p + n <= content.len() && b[..n] == content[p..p + n]);
                    // a single read leaves the rest of the buffer alone
                    if op == "read" && b[n..].iter().any(|x| *x != 0xA5) {
                        good = false;
                    }
                    "ok".into()
                }
                Err(true) => "err".into(),
                Err(false) => "other".into(),
            }
        }
        "seek" => {
            let H::Val(v) = &mut live.h else { unreachable!() };
            let size = env.stream(k).len() as i64;
            let before = v.stream_position() as i64;
            let sf = match (a, mode % 3) {
                (-1, 0) => SeekFrom::Current(-before - 1),
                (-1, _) => SeekFrom::End(-size - 1 - (mode % 5) as i64),
                (a, 0) => SeekFrom::Start(a as u64),
                (a, 1) => SeekFrom::Current(a - before),
                (a, _) => SeekFrom::End(a - size),
            };
            let r: std::result::Result<u64, bool> = if mode % 4 == 3 {
                let mut at = v.clone().attach(fs);
                let r = Seek::seek(&mut at, sf).map_err(|_| true);
                *v = at.detach();
                r
            } else {
                v.seek(fs, sf).map_err(|e| er(e) == "Io")
            };
            pos = v.stream_position();
            match r {
                Ok(n) => {
                    m = n;
                    "ok".into()
                }
                Err(true) => "err".into(),
                Err(false) => "other".into(),
            }
        }
        "next" => {
            let items = &so.items.iter().find(|x| x.0 == k).unwrap().1;
            match next(&mut live.h, fs, mode % 3 == 0) {
                None => "end".into(),
                Some(Err(e)) => {
                    if e == "Io" {
                        "err".into()
                    } else {
                        e
                    }
                }
                Some(Ok(t)) => {
                    m = items.iter().position(|x| *x == t).map(|i| i + 1).unwrap_or(0) as u64;
                    live.at += 1;
                    "item".into()
                }
            }
        }
        "ask" => {
            let ans = &so.answers.iter().find(|x| x.0 == k).unwrap().1;
            let q = a as usize % NASK;
            arg = q as i64;
            match ask(env, &mut live.h, q, fs) {
                Ok(t) => if t == ans[q] { "same".into() } else { "different".into() },
                Err(e) => if e == "Io" { "err".into() } else { e },
            }
        }
        _ => unreachable!(),
    };
    let fired = fs.fired;
    let f = if fired == 0 {
        "none"
    } else {
        // The worst kind that was planned.
        let mut f = "short";
        for (_, p) in plan {
            f = match (p, f) {
                (Fault::Fail | Fault::Dead, _) => "fail",
                (Fault::Zero, "short" | "int") => "zero",
                (Fault::Interrupted, "short") => "int",
                _ => f,
            };
        }
        f
    };
    let acc = fs.accesses;
    fs.reset_faults();
    json!({"op": op, "s": s, "a": arg, "t": "", "f": f, "r": res, "m": small(m), "pos": small(pos), "good": good, "acc": small(acc)})
}

fn fault(k: &str, rng: &mut Rng) -> Fault {
    match k {
        "short" => Fault::Short(*rng.pick(&[1, 1, 2, 100, 511])),
        "int" => Fault::Interrupted,
        "fail" => Fault::Fail,
        "zero" => Fault::Zero,
        x => panic!("fault {}", x),
    }
}

fn open_event(env: &Env, so: &Solo, s: i64, k: &str) -> Value {
    let (t, n) = if VALS.contains(&k) {
        ("val", env.stream(k).len())
    } else if ITS.contains(&k) {
        ("it", so.items.iter().find(|x| x.0 == k).unwrap().1.len())
    } else {
        ("pure", 0)
    };
    json!({"op": "open", "s": s, "a": n, "t": t, "f": "none", "r": k, "m": 0, "pos": 0, "good": true, "acc": 0})
}

pub fn volumes(seed: u64) -> &'static Vec<Rich> {
    static V: OnceLock<Vec<Rich>> = OnceLock::new();
    V.get_or_init(|| {
        (0..16)
            .map(|i| {
                let mut rng = Rng::new(seed ^ 0xB0B ^ i << 33);
                rich::build(&mut rng)
            })
            .collect()
    })
}

/// Whoever else uses the device leaves it anywhere, also close to where it was.
fn junk(fs: &mut Disk, rng: &mut Rng) {
    match rng.below(8) {
        0 => fs.pos = 0,
        1 | 2 => fs.pos = rng.below(fs.size),
        3 => fs.pos &= !511,
        4 => fs.pos = fs.pos.saturating_sub(rng.range(1, 20)),
        5 => fs.pos += rng.range(1, 20),
        _ => {}
    }
}

/// Carries out one history; every slot is bound to a concrete object.
fn history(env: &Env, so: &Solo, fs: &mut Disk, hist: &[Value], bind: &dyn Fn(i64, &str, &mut Rng) -> &'static str, rng: &mut Rng, drain: bool) -> R<Vec<Value>> {
    let mut ev = vec![];
    let mut live: Vec<Option<Live>> = vec![];
    live.resize_with(10, || None);
    for x in hist {
        let (op, s) = (js(&x[0]), ji(&x[1]));
        match op {
            "open" => {
                let k = bind(s, js(&x[2]), rng);
                live[s as usize] = Some(Live { h: env.open(k, fs)?, k, at: 0 });
                ev.push(open_event(env, so, s, k));
            }
            "clone" => {
                let t = ji(&x[2]);
                let l = live[s as usize].as_ref().unwrap();
                let d = Live { h: l.h.dup().unwrap(), k: l.k, at: l.at };
                live[t as usize] = Some(d);
                ev.push(json!({"op": "clone", "s": s, "a": t, "t": "", "f": "none", "r": "", "m": 0, "pos": 0, "good": true, "acc": 0}));
            }
            _ => {
                let l = live[s as usize].as_mut().unwrap();
                let size = if VALS.contains(&l.k) { env.stream(l.k).len() as i64 } else { 0 };
                let mut a = if op == "ask" { rng.below(1000) as i64 } else { ji(&x[2]) };
                if op == "read" || op == "exact" {
                    // 1: within a run or so; 2: over several
                    a = if a == 1 { rng.range(1, (size as u64 / 6).max(1)) as i64 } else { rng.range(size as u64 / 4, size as u64 / 2 + 1) as i64 };
                }
                if op == "seek" && a > 0 {
                    let x = rng.below(size as u64 + 1) as i64;
                    a = *rng.pick(&[x, x, size - 1, size, size + 100]);
                }
                let kind = js(&x[3]);
                let plan: Vec<(u64, Fault)> = if kind == "none" { vec![] } else { vec![(ji(&x[4]) as u64, fault(kind, rng))] };
                let n = if op == "next" && plan.is_empty() && rng.chance(1, 2) { 1 + rng.below(3) } else { 1 };
                for _ in 0..n {
                    junk(fs, rng);
                    ev.push(perform(env, so, l, fs, op, s, a, &plan, rng.below(60)));
                }
            }
        }
    }
    if drain {
        // what is left of every object
        let mut order: Vec<usize> = (0..live.len()).filter(|i| live[*i].is_some()).collect();
        rng.shuffle(&mut order);
        for i in order {
            let l = live[i].as_mut().unwrap();
            let (op, a, n) = if VALS.contains(&l.k) { ("read", env.stream(l.k).len() as i64, 2) } else if ITS.contains(&l.k) { ("next", 0, 2) } else { ("ask", rng.below(1000) as i64, 1) };
            for _ in 0..n {
                junk(fs, rng);
                ev.push(perform(env, so, l, fs, op, i as i64, a, &[], rng.below(60)));
            }
        }
    }
    Ok(ev)
}

fn concrete(t: &str, i: u64) -> &'static str {
    match t {
        "val" => VALS[(i % VALS.len() as u64) as usize],
        "it" => ITS[(i % ITS.len() as u64) as usize],
        _ => PURES[(i % 2) as usize],
    }
}

/// `rounds` bindings of every history; with faults, every concrete object is used for a history of one slot.
pub fn record(cases: &str, trace: &str, out: &str, seed: u64, rounds: u64, part: u64, parts: u64) {
    let whole = seed;
    let seed = seed ^ part << 40;
    let text = std::fs::read_to_string(cases).unwrap();
    // in an order that depends on the seed only
    let mut lines: Vec<&str> = text.lines().collect();
    lines.sort_unstable();
    Rng::new(whole ^ 0x50).shuffle(&mut lines);
    let hists: Vec<Value> = lines.into_iter().enumerate().filter(|(i, _)| *i as u64 % parts == part).map(|(_, l)| serde_json::from_str(l).unwrap()).collect();
    let vols = volumes(seed);
    let chunks: Vec<&[Value]> = hists.chunks(200.min(hists.len() / 16 + 1)).collect();
    let lines: std::sync::Mutex<Vec<(usize, Vec<Value>)>> = Default::default();
    let rep = parallel(&chunks, |ci, ch, rep| {
        let mut rng = Rng::new(seed ^ 0x0B1 ^ (ci as u64) << 24);
        let rich = &vols[ci % vols.len()];
        let mut fs = rich.vol.disk.fork();
        let mut evs = vec![];
        let r = guard(|| {
            with_env(rich, &mut fs, |env, fs| -> R<()> {
                let so = solo(env, fs)?;
                for hi in ch.iter() {
                    let h = ja(&hi["h"]);
                    let faulty = h.iter().any(|x| js(&x[3]) != "none");
                    let long = h.len() > 20;
                    for round in 0..rounds {
                        let shift = rng.below(1000);
                        let bind = |s: i64, t: &str, rng: &mut Rng| {
                            if faulty && !long && round < 7 {
                                concrete(t, round)
                            } else if rng.chance(1, 3) {
                                // the same kind in several slots
                                concrete(t, shift)
                            } else {
                                concrete(t, shift + s as u64 * 5 + rng.below(7))
                            }
                        };
                        // kinds without device accesses meet no faults
                        fs.budget = u64::MAX;
                        let e = history(env, &so, fs, h, &bind, &mut rng, true)?;
                        let met = e.iter().any(|x| js(&x["f"]) != "none");
                        if faulty && !met {
                            rep.add("no_fault_met", 1);
                            continue;
                        }
                        rep.add("histories", 1);
                        if met {
                            rep.add("with_faults", 1);
                        }
                        rep.add("events", e.len() as u64);
                        rep.sample(2, || json!(e));
                        evs.push(json!({"ev": e}));
                    }
                }
                Ok(())
            })
        });
        match r {
            Ok(Ok(Ok(()))) => {}
            Ok(Ok(Err(m))) | Ok(Err(m)) | Err(m) => rep.violation("objects", json!({"message": m})),
        }
        lines.lock().unwrap().push((ci, evs));
    });
    let mut w = NdWriter::create(trace);
    let mut l = lines.into_inner().unwrap();
    l.sort_by_key(|x| x.0);
    for e in l.iter().flat_map(|x| &x.1) {
        w.put(e);
    }
    rep.write(out);
}

/// Every placement of every fault over every operation in every state of every object (within bounds), and pairs of faults.
pub fn sweep(trace: &str, out: &str, seed: u64, level: u64) {
    let vols = volumes(seed);
    let mut jobs: Vec<(usize, &'static str, u64)> = vec![];
    for k in VALS.iter().chain(&ITS).chain(&PURES) {
        for part in 0..(if *k == "volume" { NASK as u64 } else { 8 }) {
            for v in 0..level {
                jobs.push(((v * 5 + part) as usize % vols.len(), *k, part));
            }
        }
    }
    let lines: std::sync::Mutex<Vec<(usize, Vec<Value>)>> = Default::default();
    let rep = parallel(&jobs, |ji_, (vi, k, part), rep| {
        let mut rng = Rng::new(seed ^ 0x5EE9 ^ (ji_ as u64) << 24);
        let rich = &vols[*vi];
        let mut fs = rich.vol.disk.fork();
        let mut evs = vec![];
        let r = guard(|| {
            with_env(rich, &mut fs, |env, fs| -> R<()> {
                let so = solo(env, fs)?;
                // the operations to fault and the states to fault them in
                let mut ops: Vec<(String, i64, i64)> = vec![]; // op, argument, state
                if VALS.contains(k) {
                    let size = env.stream(k).len() as i64;
                    for _ in 0..6 {
                        let at = rng.below(size as u64 + 1) as i64;
                        ops.push(("read".into(), rng.range(1, size as u64) as i64, at));
                        ops.push(("exact".into(), rng.range(1, size as u64) as i64, at));
                        ops.push(("seek".into(), rng.below(size as u64 + 50) as i64, at));
                    }
                } else if ITS.contains(k) {
                    let n = so.items.iter().find(|x| x.0 == *k).unwrap().1.len() as u64;
                    for i in 0..=n {
                        if i % 8 == *part {
                            ops.push(("next".into(), 0, i as i64));
                        }
                    }
                } else {
                    ops.push(("ask".into(), *part as i64, 0));
                }
                for (op, a, at) in ops {
                    let prepare = |fs: &mut Disk| -> R<Live<'_>> {
                        let mut l = Live { h: env.open(k, fs)?, k, at: 0 };
                        if let H::Val(v) = &mut l.h {
                            v.seek(fs, SeekFrom::Start(at as u64)).map_err(er)?;
                        } else {
                            for _ in 0..at {
                                next(&mut l.h, fs, false).ok_or("few items")?.map_err(|e| e)?;
                            }
                        }
                        Ok(l)
                    };
                    // how many accesses there are
                    let mut l = prepare(fs)?;
                    let e = perform(env, &so, &mut l, fs, &op, 1, a, &[], 1);
                    let n = e["acc"].as_u64().unwrap();
                    rep.add("operations", 1);
                    let mut plans: Vec<Vec<(u64, Fault)>> = vec![];
                    let kinds = [Fault::Short(1), Fault::Short(3), Fault::Interrupted, Fault::Fail, Fault::Zero];
                    let most = 40 * level;
                    for i in 0..n {
                        if n > most && i > 10 && !rng.chance(most, n) {
                            continue;
                        }
                        for f in kinds {
                            plans.push(vec![(i, f)]);
                            if rng.chance(1, if level > 1 { 2 } else { 6 }) {
                                plans.push(vec![(i, f), (i + 1 + rng.below(4), *rng.pick(&kinds))]);
                            }
                        }
                    }
                    // a device that fails from some access on, and does not recover within the operation
                    for _ in 0..6 {
                        let i = rng.below(n.max(1));
                        plans.push(vec![(i, Fault::Dead)]);
                    }
                    // everything short or interrupted
                    plans.push((0..2000).map(|i| (i, Fault::Short(1 + i as usize % 2))).collect());
                    plans.push((0..200).map(|i| (2 * i + 1, Fault::Interrupted)).collect());
                    for p in plans {
                        let mut l = prepare(fs)?;
                        let mut e = vec![open_event(env, &so, 1, k)];
                        if VALS.contains(k) {
                            e.push(json!({"op": "seek", "s": 1, "a": at, "t": "", "f": "none", "r": "ok", "m": at, "pos": at, "good": true, "acc": 0}));
                        } else {
                            e[0]["pos"] = json!(at); // items already taken
                        }
                        let mode = rng.below(60);
                        let x = perform(env, &so, &mut l, fs, &op, 1, a, &p, mode);
                        if js(&x["f"]) == "none" {
                            continue;
                        }
                        let failed = js(&x["r"]) == "err";
                        e.push(x);
                        rep.add("placements", 1);
                        if failed {
                            rep.add("errors", 1);
                        }
                        // again, on the recovered device, and what follows
                        let again = if op == "exact" { "read" } else { op.as_str() };
                        e.push(perform(env, &so, &mut l, fs, again, 1, a, &[], mode));
                        let rest = if VALS.contains(k) { Some(("read", env.stream(k).len() as i64)) } else if ITS.contains(k) { Some(("next", 0)) } else { None };
                        if let Some((op, a)) = rest {
                            e.push(perform(env, &so, &mut l, fs, op, 1, a, &[], mode));
                        }
                        evs.push(json!({"ev": e}));
                    }
                }
                Ok(())
            })
        });
        match r {
            Ok(Ok(Ok(()))) => {}
            Ok(Ok(Err(m))) | Ok(Err(m)) | Err(m) => rep.violation("objects", json!({"message": format!("{}: {}", k, m)})),
        }
        lines.lock().unwrap().push((ji_, evs));
    });
    let mut rep = rep;
    // opening a volume and its table of upcase characters
    let rich = &vols[0];
    let mut fs = rich.vol.disk.fork();
    let mut evs = vec![];
    for again in [false, true] {
      fs.reset_faults();
      let want = upcase(&mut fs, rich, again, None);
      let n = fs.accesses;
      for i in 0..n {
        for f in ["short", "int", "fail", "zero"] {
            let mut rng = Rng::new(i);
            fs.reset_faults();
            fs.pos = rng.below(fs.size);
            fs.salt = i;
            let f2 = fault(f, &mut rng);
            let r = guard(|| upcase(&mut fs, rich, again, Some((i, f2))));
            let fired = fs.fired;
            fs.reset_faults();
            let r2 = match r {
                Err(m) => m,
                Ok(r) if r == want => "same".into(),
                Ok(Err(e)) if e == "Io" => "err".into(),
                Ok(x) => {
                    // an error is also an answer to the questions asked behind the table's
                    if x.as_ref().is_ok_and(|x| x.contains("Err(\"Io\")")) {
                        "err".into()
                    } else {
                        "different".into()
                    }
                }
            };
            rep.add("placements", 1);
            evs.push(json!({"op": "ask", "s": 1, "a": i, "t": "", "f": if fired > 0 { f } else { "none" }, "r": r2, "m": 0, "pos": 0, "good": true, "acc": 0}));
        }
      }
    }
    evs.insert(0, json!({"op": "open", "s": 1, "a": 0, "t": "pure", "f": "none", "r": "upcase", "m": 0, "pos": 0, "good": true, "acc": 0}));
    let mut l = lines.into_inner().unwrap();
    l.push((usize::MAX, vec![json!({"ev": evs})]));
    let mut w = NdWriter::create(trace);
    l.sort_by_key(|x| x.0);
    for e in l.iter().flat_map(|x| &x.1) {
        w.put(e);
    }
    rep.write(out);
}
