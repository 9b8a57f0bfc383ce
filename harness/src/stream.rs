//! Replay of the Stream specification's state graph (Stream.tla) against real values (C01, C02, C03, C18).
use crate::disk::Disk;
use crate::img::*;
use crate::util::*;
use ntfs::attribute_value::{NtfsAttributeValue, NtfsDataRun};
use ntfs::{Ntfs, NtfsReadSeek};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io::{Read, Seek, SeekFrom};

pub const CU: u64 = 2;
const MAXP: i64 = 1000;
const HILO: i64 = 990;
const FARLO: i64 = 970;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub kind: String,
    pub runs: Vec<(u64, bool)>, // clusters, sparse
    pub cut: Vec<usize>,
    pub size: u64,
    pub init: u64,
    /// the run list goes on with something that denotes no run
    pub bad: bool,
    pub raw: Value,
}

impl Cfg {
    pub fn parse(v: &Value) -> Cfg {
        Cfg {
            kind: js(&v["kind"]).into(),
            runs: ja(&v["runs"]).iter().map(|r| (ji(&r["len"]) as u64, jb(&r["sp"]))).collect(),
            cut: ja(&v["cut"]).iter().map(|r| ji(r) as usize).collect(),
            size: ji(&v["size"]) as u64,
            init: ji(&v["init"]) as u64,
            bad: jb(&v["bad"]),
            raw: v.clone(),
        }
    }
}

/// A concrete volume realising a configuration.
pub struct Real {
    pub vol: Vol,
    pub scale: u64,
    pub lcns: Vec<u64>,
    pub rec: u64,
    pub res_at: u64,
    /// A unit is gigabytes long: reads are taken apart into small ones and seeks.
    pub huge: bool,
    /// where the far positions are
    pub far: u64,
    pub variant: String,
}

/// Somewhere behind the value that a signed number of 64 bits still reaches.
fn far(rng: &mut Rng, cfg: &Cfg, scale: u64) -> u64 {
    let end = cfg.size.max(CU * cfg.runs.iter().map(|r| r.0).sum::<u64>());
    let v = [1u64 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 77, 1 << 40, 1 << 48, 1 << 62, (1 << 63) - 10 * scale, (1 << 63) - 1 - scale];
    let v: Vec<u64> = v.into_iter().filter(|f| *f > (end + 4) * scale).collect();
    *rng.pick(&v)
}

impl Real {
    /// Device position of a coded location (None: no location).
    pub fn loc(&self, cfg: &Cfg, code: i64) -> Option<u64> {
        if code < 0 {
            return None;
        }
        let (r, o) = ((code / 100) as usize, (code % 100) as u64);
        if cfg.kind == "res" {
            Some(self.res_at + (code as u64 - 100) * self.scale)
        } else {
            Some(self.lcns[r - 1] * self.vol.cs + o * self.scale)
        }
    }
    /// The reported position of a location. Nothing can be reported for the very first byte of the device.
    pub fn place(&self, cfg: &Cfg, code: i64) -> Option<u64> {
        self.loc(cfg, code).filter(|p| *p != 0)
    }
    fn content(&self, cfg: &Cfg, at: u64) -> u8 {
        // (the last bytes of a record's sectors are elsewhere on the device)
        if cfg.kind == "res" { crate::disk::pattern(at) } else { self.vol.disk.byte(at) }
    }
    pub fn p2b(&self, p: i64) -> u64 {
        if p >= HILO {
            u64::MAX - (MAXP - p) as u64 * self.scale
        } else if p >= FARLO {
            self.far + (p - FARLO) as u64 * self.scale
        } else {
            p as u64 * self.scale
        }
    }
}

/// The size of a unit.
#[derive(Clone, Copy, PartialEq)]
pub enum Unit {
    /// half a cluster
    Small,
    /// up to megabytes
    Wide,
    /// up to terabytes
    Huge,
}

pub fn build(cfg: &Cfg, rng: &mut Rng, unit: Unit) -> Real {
    let unit = if cfg.kind == "res" { Unit::Small } else { unit };
    let huge = unit == Unit::Huge;
    let cs = *rng.pick(&[512u64, 512, 1024, 4096]);
    let frs = if cfg.kind == "res" { *rng.pick(&[1024u64, 4096]) } else { 1024 };
    // Clusters per cluster of the specification.
    let k = if huge { *rng.pick(&[1u64 << 32, 1 << 33, 3 << 31, 1 << 35, (1 << 31) + 8192, 1 << 46]) / cs }
        else if unit == Unit::Wide { (rng.range(1 << 17, 1 << 22) >> rng.below(3)) / cs + 1 } else { 1 };
    let total: u64 = cfg.runs.iter().map(|r| r.0 * k).sum();
    let clusters = if unit == Unit::Small { 1 << 14 } else { (1 << 14) + 2 * total + 4096 };
    let mut vol = Vol::new(cs, 512, frs, clusters, vec![Run { lcn: Some(16), len: 64 * frs / cs }]);
    vol.vary_sectors(rng);
    vol.put_mft_record();
    // physical placement of the runs
    let order = rng.below(4);
    let base = if unit == Unit::Small { 16 + 64 * frs / cs + 5 } else { 1 << 13 };
    let mut slots: Vec<usize> = (0..cfg.runs.len()).collect();
    match order {
        0 => {}
        1 => slots.reverse(),
        2 => rng.shuffle(&mut slots),
        _ => {}
    }
    let gap = if order == 3 { 0 } else { 1 + rng.below(300) };
    let mut lcns = vec![0u64; cfg.runs.len()];
    let mut at = base;
    for s in slots {
        lcns[s] = at;
        at += cfg.runs[s].0 * k + gap;
    }
    // The clusters of the boot sector belong to a file like any others.
    if unit == Unit::Small && !lcns.is_empty() && rng.chance(1, 4) {
        let i = rng.below(lcns.len() as u64) as usize;
        lcns[i] = 0;
    }
    let runs: Vec<Run> = cfg
        .runs
        .iter()
        .zip(&lcns)
        .map(|(r, l)| Run { lcn: if r.1 { None } else { Some(*l) }, len: r.0 * k })
        .collect();
    let scale = k * cs / CU;
    let mut variant = format!("cs={} order={} gap={} unit={}", cs, order, gap, scale);
    let rec = 24;
    let mut res_at = 0;
    match cfg.kind.as_str() {
        "nr" | "run" => {
            // a data run knows nothing of the size of the value
            let (size, init) = match (cfg.kind.as_str(), rng.below(3)) {
                ("run", 0) => (cfg.size * scale - 1, 0),
                ("run", 1) => (1, 1),
                _ => (cfg.size * scale, cfg.init * scale),
            };
            let mut a = nr_simple(T_DATA, &[], 2, cs, &runs, size, init);
            if cfg.bad {
                damage(&mut a, rng);
            }
            if rng.chance(1, 3) {
                // sparse and encrypted values are stored like any other
                w16(&mut a, 12, *rng.pick(&[0u16, 0x8000, 0x4000, 0xC000]));
            }
            let r = Rec::new(rec).attr(attr_resident(T_STD, &[], 0, 0, &[0; 72])).attr(a);
            vol.put(&r);
            Real { vol, scale, lcns, rec, res_at, huge, far: far(rng, cfg, scale), variant }
        }
        "res" => {
            // up to what fits into the record
            let scale = match rng.below(3) {
                0 => rng.range(1, 9),
                1 => (frs - 244) / cfg.size.max(1),
                _ => rng.range(9, (frs - 244) / cfg.size.max(1)),
            };
            let pre = attr_resident(T_STD, &[], 0, 0, &vec![0; 48 + 8 * rng.below(4) as usize]);
            let named = rng.chance(1, 2);
            let name = if named { u16s("abc") } else { vec![] };
            let a = attr_resident(T_DATA, &name, 1, 0, &vec![0; (cfg.size * scale) as usize]);
            let off = Rec::attrs_off(frs as usize) + pre.len() + r16(&a, 20) as usize;
            let mut a2 = a.clone();
            let vo = r16(&a, 20) as usize;
            res_at = vol.mft_pos(rec * frs + off as u64).unwrap();
            // the value's bytes equal the device pattern at their place
            for i in 0..(cfg.size * scale) as usize {
                a2[vo + i] = crate::disk::pattern(res_at + i as u64);
            }
            let r = Rec::new(rec).attr(pre).attr(a2);
            vol.put(&r);
            variant = format!("scale={} named={}", scale, named);
            Real { vol, scale, lcns, rec, res_at, huge, far: far(rng, cfg, scale), variant }
        }
        "list" => {
            // extents over extension records; the first one may live in the base record
            let first_in_base = rng.chance(1, 3);
            let list_resident = rng.chance(1, 2) && cfg.cut.len() < 13;
            let same_inst = rng.chance(1, 2);
            // Neighbouring extents may also share a record.
            let shared = rng.chance(1, 3);
            let mut homes: Vec<Rec> = vec![];
            let flags = *rng.pick(&[0u16, 0, 0x8000, 0x4000, 0xC000]);
            let named = rng.chance(1, 4);
            let name = if named { u16s("s") } else { vec![] };
            let mut recs: Vec<u64> = (0..cfg.cut.len() as u64).map(|i| 30 + i).collect();
            if rng.chance(1, 2) {
                recs.reverse();
            }
            let mut ents = vec![];
            let mut pads = vec![];
            ents.push(ListEnt { ty: T_STD, name: vec![], lowest: 0, fref: rec | 1 << 48, instance: 0 });
            let mut base = Rec::new(rec).attr(attr_resident(T_STD, &[], 0, 0, &[0; 72]));
            // A list of many entries: names of the file in records of their own.
            if rng.chance(1, 8) {
                let each = rng.range(1, 9);
                for num in 1..=rng.range(1, 16) {
                    let mut r = Rec::new(num);
                    r.base = rec | 1 << 48;
                    for i in 0..each {
                        r = r.attr(attr_resident(T_NAME, &[], i as u16, 0, &Fname::new(5, &u16s("x"), 1).bytes()));
                        ents.push(ListEnt { ty: T_NAME, name: vec![], lowest: 0, fref: num | 1 << 48, instance: i as u16 });
                    }
                    vol.put(&r);
                }
            }
            // Entries are as long as they say.
            if rng.chance(1, 3) {
                let most = *rng.pick(&[8u64, 40, 600, 5000, 65000]);
                pads = (0..ents.len() + cfg.cut.len() + 1).map(|_| if rng.chance(1, 3) { rng.below(most) as usize } else { 0 }).collect();
            }
            let mut nexti = 0;
            let mut vcn = 0u64;
            let mut base_data = None;
            // What lies behind the good runs may also be in an extent that cannot be found.
            let gone = cfg.bad && rng.chance(1, 2);
            for (e, n) in cfg.cut.iter().enumerate() {
                let rs = &runs[nexti..nexti + n];
                nexti += n;
                let clusters: u64 = rs.iter().map(|r| r.len).sum();
                let inst = if same_inst && !shared { 3 } else { 3 + e as u16 };
                let mut a = attr_nonresident(&Nr {
                    ty: T_DATA,
                    name: name.clone(),
                    instance: inst,
                    flags,
                    lowest: vcn,
                    highest: vcn + clusters - 1,
                    runs: encode_runs(rs),
                    alloc: if e == 0 { total * cs } else { 0 },
                    size: if e == 0 { cfg.size * scale } else { 0 },
                    init: if e == 0 { cfg.init * scale } else { 0 },
                });
                if cfg.bad && !gone && e + 1 == cfg.cut.len() {
                    damage(&mut a, rng);
                }
                let in_base = e == 0 && first_in_base;
                let room = homes.last().map_or(false, |h| h.num == recs[e.max(1) - 1] && h.attrs.iter().map(|x| x.len()).sum::<usize>() + a.len() < 900);
                if shared && e > 0 && !(e == 1 && first_in_base) && room && rng.chance(1, 2) {
                    recs[e] = recs[e - 1];
                }
                let num = if in_base { rec } else { recs[e] };
                ents.push(ListEnt { ty: T_DATA, name: name.clone(), lowest: vcn, fref: num | 1 << 48, instance: inst });
                if in_base {
                    base_data = Some(a);
                } else if homes.last().map_or(false, |h| h.num == num) {
                    let r = homes.pop().unwrap();
                    homes.push(r.attr(a));
                } else {
                    let mut r = Rec::new(num);
                    r.base = rec | 1 << 48;
                    // another attribute in front, so that the extent is not the first one of its record
                    if rng.chance(1, 2) {
                        r = r.attr(attr_resident(T_NAME, &[], 7, 0, &Fname::new(5, &u16s("x"), 1).bytes()));
                    }
                    homes.push(r.attr(a));
                }
                vcn += clusters;
            }
            if gone {
                let num = 30 + cfg.cut.len() as u64;
                let mut r = Rec::new(num);
                r.base = rec | 1 << 48;
                r = r.attr(attr_resident(T_NAME, &[], 7, 0, &Fname::new(5, &u16s("x"), 1).bytes()));
                let res = attr_resident(T_DATA, &name, 40, 0, &[1; 24]);
                let at = match rng.below(4) {
                    // no attribute of that instance
                    0 => (num, 9),
                    // one of another kind
                    1 => (num, 7),
                    // no record at all
                    2 => (num + 1, 40),
                    // no runs
                    _ => {
                        r = r.attr(res);
                        (num, 40)
                    }
                };
                homes.push(r);
                ents.push(ListEnt { ty: T_DATA, name: name.clone(), lowest: vcn, fref: at.0 | 1 << 48, instance: at.1 });
            }
            for r in &homes {
                vol.put(r);
            }
            let lb = list_bytes_padded(&ents, &pads);
            let list_resident = list_resident && lb.len() + base_data.as_ref().map_or(0, |a| a.len()) < 650;
            if list_resident {
                base = base.attr(attr_resident(T_LIST, &[], 1, 0, &lb));
            } else {
                let n = (lb.len() as u64 + cs - 1) / cs;
                // in up to three pieces, in any order
                let from = if unit == Unit::Small { clusters - n - 8 } else { 1 << 10 };
                let mut lens = vec![];
                let mut left = n;
                for _ in 0..2 {
                    if left > 1 && rng.chance(1, 2) {
                        let m = rng.range(1, left - 1);
                        lens.push(m);
                        left -= m;
                    }
                }
                lens.push(left);
                let mut place: Vec<usize> = (0..lens.len()).collect();
                rng.shuffle(&mut place);
                let mut lruns: Vec<Run> = lens.iter().map(|l| Run { lcn: None, len: *l }).collect();
                let mut lat = from;
                for i in place {
                    lruns[i].lcn = Some(lat);
                    lat += lens[i] + rng.below(2);
                }
                let mut lo = 0;
                for r in &lruns {
                    let end = lb.len().min(lo + (r.len * cs) as usize);
                    vol.disk.write(r.lcn.unwrap() * cs, &lb[lo..end]);
                    lo = end;
                }
                base = base.attr(nr_simple(T_LIST, &[], 1, cs, &lruns, lb.len() as u64, lb.len() as u64));
            }
            if let Some(a) = base_data {
                base = base.attr(a);
            }
            vol.put(&base);
            variant = format!(
                "{} list={} base={} reslist={} sameinst={} shared={} named={} flags={:#x} gone={}",
                variant, lb.len(), first_in_base, list_resident, same_inst, shared, named, flags, gone
            );
            Real { vol, scale, lcns, rec, res_at, huge, far: far(rng, cfg, scale), variant }
        }
        k => panic!("unknown kind {}", k),
    }
}

/// Replaces the end marker of the run list of a non-resident attribute by something that denotes no run.
fn damage(a: &mut Vec<u8>, rng: &mut Rng) {
    let ro = r16(a, 32) as usize;
    let mut i = ro;
    while a[i] != 0 {
        i += 1 + (a[i] & 15) as usize + (a[i] >> 4) as usize;
    }
    a.truncate(i);
    let junk: &[&[u8]] = &[
        &[0x19, 1, 0, 0, 0, 0, 0, 0, 0, 0],             // a length of nine bytes
        &[0x91, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0],          // a location of nine bytes
        &[0x11, 0, 1],                                  // no length
        &[0x10, 1],                                     // no length field
        &[0x81, 1, 0, 0, 0, 0, 0, 0, 0, 0x80],          // far below zero
        &[0x18, 0, 0, 0, 0, 0, 0, 0, 0xF0, 1],          // longer than any device
        &[0x88, 1, 0, 0, 0, 0, 0],                      // cut off by the end of the attribute
    ];
    let j = rng.pick(junk);
    a.extend_from_slice(j);
    let n = a.len();
    if j.len() != 7 {
        a.resize(al8(n + 1), 0);
    }
    let n = a.len();
    w32(a, 4, n as u32);
}

type Key = [i64; 4];
#[derive(Clone)]
pub struct Edge {
    pub op: (char, i64),
    pub n: i64,
    pub to: Key,
}
#[derive(Clone)]
pub struct Node {
    pub rest: Vec<i64>,
    pub dp: Vec<i64>,
    pub dps: Vec<i64>,
    pub edges: Vec<Edge>,
}
pub struct Graph {
    pub cfg: Cfg,
    pub nodes: BTreeMap<Key, Node>,
    pub start: Key,
}

fn key(v: &Value) -> Key {
    let a = ja(v);
    [ji(&a[0]), ji(&a[1]), ji(&a[2]), ji(&a[3])]
}

pub fn load(path: &str) -> Vec<Graph> {
    let mut by: HashMap<String, Graph> = HashMap::new();
    let mut order = vec![];
    for v in read_ndjson(path) {
        let id = v["cfg"].to_string();
        let g = by.entry(id.clone()).or_insert_with(|| {
            order.push(id.clone());
            Graph { cfg: Cfg::parse(&v["cfg"]), nodes: BTreeMap::new(), start: [0; 4] }
        });
        let ints = |x: &Value| ja(x).iter().map(ji).collect::<Vec<_>>();
        let mut edges: Vec<Edge> = ja(&v["e"])
            .iter()
            .map(|e| Edge { op: (js(&e["o"][0]).chars().next().unwrap(), ji(&e["o"][1])), n: ji(&e["n"]), to: key(&e["to"]) })
            .collect();
        edges.sort_by_key(|e| e.op);
        g.nodes.insert(key(&v["at"]), Node { rest: ints(&v["rest"]), dp: ints(&v["dp"]), dps: ints(&v["dps"]), edges });
    }
    order.sort();
    let mut out: Vec<Graph> = vec![];
    for id in order {
        let mut g = by.remove(&id).unwrap();
        g.start = if g.cfg.kind == "res" || g.cfg.kind == "run" || g.cfg.runs.is_empty() { [0, 0, 0, 1] } else { [0, 1, 0, 2] };
        assert!(g.nodes.contains_key(&g.start), "no start state for {}", id);
        out.push(g);
    }
    out
}

/// What is read and seeked: a value, or one of its data runs on its own.
#[derive(Clone)]
pub enum Str<'n, 'f> {
    Value(NtfsAttributeValue<'n, 'f>),
    Run(NtfsDataRun),
}

impl<'n, 'f> NtfsReadSeek for Str<'n, 'f> {
    fn read<T: Read + Seek>(&mut self, fs: &mut T, buf: &mut [u8]) -> ntfs::Result<usize> {
        match self {
            Str::Value(v) => v.read(fs, buf),
            Str::Run(v) => v.read(fs, buf),
        }
    }
    fn read_exact<T: Read + Seek>(&mut self, fs: &mut T, buf: &mut [u8]) -> ntfs::Result<()> {
        match self {
            Str::Value(v) => v.read_exact(fs, buf),
            Str::Run(v) => v.read_exact(fs, buf),
        }
    }
    fn seek<T: Read + Seek>(&mut self, fs: &mut T, pos: SeekFrom) -> ntfs::Result<u64> {
        match self {
            Str::Value(v) => v.seek(fs, pos),
            Str::Run(v) => v.seek(fs, pos),
        }
    }
    fn stream_position(&self) -> u64 {
        match self {
            Str::Value(v) => v.stream_position(),
            Str::Run(v) => v.stream_position(),
        }
    }
}

impl<'n, 'f> Str<'n, 'f> {
    fn len(&self) -> u64 {
        match self {
            Str::Value(v) => v.len(),
            Str::Run(v) => v.allocated_size(),
        }
    }
    fn data_position(&self) -> ntfs::types::NtfsPosition {
        match self {
            Str::Value(v) => v.data_position(),
            Str::Run(v) => v.data_position(),
        }
    }
    /// Through the attached standard reader, where there is one.
    fn attached<R>(self, fs: &mut Disk, f: impl FnOnce(&mut dyn ReadSeek) -> std::io::Result<R>) -> (Self, Result<R, String>) {
        match self {
            // Every second time the inner reader of a non-resident value, which has an attached reader of its own.
            Str::Value(NtfsAttributeValue::NonResident(v)) if (v.stream_position() ^ v.stream_position() >> 9 ^ v.stream_position() >> 12) & 1 == 0 => {
                let (len, empty, place) = (v.len(), v.is_empty(), v.data_position());
                let mut a = v.attach(fs);
                let same = (a.len(), a.is_empty(), a.data_position()) == (len, empty, place) && empty == (len == 0);
                let mut r = f(&mut a).map_err(|x| format!("io {:?}", x.kind()));
                let place = a.data_position();
                let v = a.detach();
                if !same || v.data_position() != place {
                    r = Err("the attached reader reports another length or position than the value".into());
                }
                (Str::Value(NtfsAttributeValue::NonResident(v)), r)
            }
            Str::Value(v) => {
                let (len, empty, place) = (v.len(), v.is_empty(), v.data_position());
                let mut a = v.attach(fs);
                let same = (a.len(), a.is_empty(), a.data_position()) == (len, empty, place) && empty == (len == 0);
                let mut r = f(&mut a).map_err(|x| format!("io {:?}", x.kind()));
                let place = a.data_position();
                let v = a.detach();
                if !same || v.data_position() != place {
                    r = Err("the attached reader reports another length or position than the value".into());
                }
                (Str::Value(v), r)
            }
            Str::Run(mut run) => {
                let r = f(&mut RunReader(&mut run, fs)).map_err(|x| format!("io {:?}", x.kind()));
                (Str::Run(run), r)
            }
        }
    }
}

pub trait ReadSeek: Read + Seek {}
impl<T: Read + Seek> ReadSeek for T {}

struct RunReader<'a>(&'a mut NtfsDataRun, &'a mut Disk);

impl Read for RunReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(self.1, buf).map_err(std::io::Error::from)
    }
}

impl Seek for RunReader<'_> {
    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(self.1, pos).map_err(std::io::Error::from)
    }
}

pub fn open_value<'n, 'f>(
    cfg: &Cfg,
    item: &'f ntfs::NtfsAttributeItem<'n, 'f>,
    fs: &mut Disk,
) -> Result<Str<'n, 'f>, String> {
    let a = item.to_attribute().map_err(|e| format!("to_attribute: {}", ename(&e)))?;
    let v = a.value(fs).map_err(|e| format!("value: {}", ename(&e)))?;
    if cfg.kind != "run" {
        return Ok(Str::Value(v));
    }
    let NtfsAttributeValue::NonResident(v) = v else { return Err("not a non-resident value".into()) };
    let run = v.data_runs().next().ok_or("no data run")?.map_err(|e| format!("data run: {}", ename(&e)))?;
    Ok(Str::Run(run))
}

pub fn find_data<'n, 'f>(
    file: &'f ntfs::NtfsFile<'n>,
    fs: &mut Disk,
) -> Result<ntfs::NtfsAttributeItem<'n, 'f>, String> {
    let mut it = file.attributes();
    while let Some(i) = it.next(fs) {
        let i = i.map_err(|e| format!("attributes: {}", ename(&e)))?;
        let is = {
            let a = i.to_attribute().map_err(|e| ename(&e))?;
            a.ty().map_err(|e| ename(&e))? == ntfs::NtfsAttributeType::Data
        };
        if is {
            return Ok(i);
        }
    }
    Err("no data attribute".into())
}

/// The position a seek is to reach, in units.
fn target(g: &Graph, p: i64, e: &Edge) -> i64 {
    match e.op.0 {
        'S' | 'e' | 'c' => e.op.1,
        'E' => g.cfg.size as i64 + e.op.1,
        _ => p + e.op.1,
    }
}

struct Mismatch(String);
const LOST: &str = "lost";

fn step<'n, 'f>(
    g: &Graph,
    real: &Real,
    fs: &mut Disk,
    value: Str<'n, 'f>,
    at: Key,
    e: &Edge,
    mode: u64,
    places: bool,
) -> (Str<'n, 'f>, Option<Mismatch>, bool) {
    let node = &g.nodes[&at];
    let s = real.scale;
    let mut reset = false;
    let mut bad: Option<String> = None;
    let mut v = value;
    let tgt = &g.nodes.get(&e.to);
    match e.op.0 {
        'R' if e.n < 0 => {
            // behind the damage
            let mut buf = vec![0xCCu8; 1 + (e.op.1 as usize * s as usize - 1).min(5000)];
            let r: Result<usize, String> = match mode % 3 {
                0 => v.read(fs, &mut buf).map_err(|x| ename(&x)),
                1 => {
                    let r;
                    (v, r) = v.attached(fs, |a| a.read(&mut buf));
                    r
                }
                _ => {
                    let n = buf.len();
                    v.read_exact(fs, &mut buf).map(|_| n).map_err(|x| ename(&x))
                }
            };
            if let Ok(n) = r {
                bad = Some(format!("a read of {} bytes behind the damage of the run list returned {}", buf.len(), n));
            }
        }
        'R' if real.huge => {
            if let Err(m) = huge_read(g, real, fs, &mut v, &node.rest, e.op.1, e.n) {
                bad = Some(m);
            }
        }
        'R' => {
            let k = e.op.1 as usize * s as usize;
            let mut buf = vec![0xCCu8; k];
            let want = e.n as usize * s as usize;
            // read by different equivalent means
            let r: Result<usize, String> = match mode % 4 {
                0 | 1 => v.read(fs, &mut buf).map_err(|x| ename(&x)),
                2 => {
                    let r;
                    (v, r) = v.attached(fs, |a| a.read(&mut buf));
                    r
                }
                _ => {
                    let exact = v.read_exact(fs, &mut buf);
                    match exact {
                        Ok(()) => Ok(k),
                        Err(ntfs::NtfsError::Io(x)) if x.kind() == std::io::ErrorKind::UnexpectedEof => {
                            reset = true;
                            if want == k {
                                Err("UnexpectedEof".into())
                            } else {
                                Ok(want)
                            }
                        }
                        Err(_) if g.cfg.bad && want < k => {
                            reset = true;
                            Ok(want)
                        }
                        Err(x) => Err(ename(&x)),
                    }
                }
            };
            match r {
                Err(x) => bad = Some(format!("read of {} bytes failed: {}", k, x)),
                Ok(n) => {
                    if n != want {
                        bad = Some(format!("read of {} bytes returned {}, expected {}", k, n, want));
                    } else {
                        for i in 0..n {
                            let code = node.rest[i / s as usize];
                            let exp = match real.loc(&g.cfg, code) {
                                None => 0,
                                Some(l) => real.content(&g.cfg, l + (i as u64 % s)),
                            };
                            if buf[i] != exp {
                                bad = Some(format!(
                                    "byte {} of the read is {:#04x}, expected {:#04x} (location {})",
                                    i, buf[i], exp, code
                                ));
                                break;
                            }
                        }
                        if bad.is_none() && buf[n..].iter().any(|b| *b != 0xCC) {
                            bad = Some("bytes behind the returned length were changed".into());
                        }
                    }
                }
            }
        }
        w => {
            let d = e.op.1;
            let sf = match w {
                'S' => SeekFrom::Start(real.p2b(d)),
                'E' => SeekFrom::End(d * s as i64),
                'C' => SeekFrom::Current(d * s as i64),
                // the same from the end or from here, where that can be expressed
                _ => match i64::try_from(real.p2b(d) as i128 - if w == 'e' { (g.cfg.size * s) as i128 } else { v.stream_position() as i128 }) {
                    Ok(x) if w == 'e' => SeekFrom::End(x),
                    Ok(x) => SeekFrom::Current(x),
                    Err(_) => SeekFrom::Start(real.p2b(d)),
                },
            };
            let r: Result<u64, String> = if mode % 3 == 2 {
                let r;
                (v, r) = v.attached(fs, |a| a.seek(sf));
                r
            } else {
                v.seek(fs, sf).map_err(|x| match x {
                    ntfs::NtfsError::Io(y) => format!("io {:?}", y.kind()),
                    _ => ename(&x),
                })
            };
            if e.n == -2 {
                match r {
                    Err(_) => {}
                    Ok(x) if x == real.p2b(target(g, at[0], e)) => reset = true,
                    o => bad = Some(format!("seek {:?} gave {:?}", sf, o)),
                }
            } else if e.n < 0 {
                match r {
                    Err(x) if x == "io InvalidInput" => {}
                    o => bad = Some(format!("seek {:?} gave {:?}, expected an invalid-input error", sf, o)),
                }
            } else {
                let want = real.p2b(e.n);
                match r {
                    Ok(x) if x == want => {}
                    o => bad = Some(format!("seek {:?} gave {:?}, expected {}", sf, o, want)),
                }
            }
        }
    }
    if bad.is_none() && !reset {
        let p = v.stream_position();
        let want = real.p2b(e.to[0]);
        if p != want {
            bad = Some(format!("position is {}, expected {}", p, want));
        }
    }
    if places && bad.is_none() && !reset {
        if let Some(t) = tgt {
            let moved_seek = e.op.0 != 'R' && e.n >= 0 && e.to[0] != at[0];
            let allowed = if moved_seek { &t.dps } else { &t.dp };
            let dp = v.data_position().value().map(|x| x.get());
            if !allowed.iter().any(|c| real.place(&g.cfg, *c) == dp) {
                let m = format!(
                    "data position is {:?}, expected one of {:?}",
                    dp,
                    allowed.iter().map(|c| real.place(&g.cfg, *c)).collect::<Vec<_>>()
                );
                return (v, Some(Mismatch(m)), reset);
            }
        }
    }
    if places {
        // Where the cursor is wrong is decided elsewhere (C01-C03); the walk cannot follow it from here.
        return (v, bad.map(|_| Mismatch(LOST.into())), reset);
    }
    if bad.is_none() && v.len() != g.cfg.size * s {
        bad = Some(format!("length is {}, expected {}", v.len(), g.cfg.size * s));
    }
    (v, bad.map(Mismatch), reset)
}



/// A read of `want` units that gives `n` of them: the borders of every unit are read, its inside is passed by a seek.
fn huge_read<'n, 'f>(
    g: &Graph,
    real: &Real,
    fs: &mut Disk,
    v: &mut Str<'n, 'f>,
    rest: &[i64],
    want: i64,
    n: i64,
) -> Result<(), String> {
    const E: u64 = 40;
    let s = real.scale;
    let start = v.stream_position();
    let mut piece = |v: &mut Str<'n, 'f>, off: u64, len: u64, exp: u64| -> Result<(), String> {
        let mut buf = vec![0xCC; len as usize];
        match v.read(fs, &mut buf) {
            Ok(r) if r as u64 == exp => {}
            o => return Err(format!("read of {} bytes at {} gave {:?}, expected {}", len, start + off, o.map_err(|e| ename(&e)), exp)),
        }
        for i in 0..exp {
            let o = off + i;
            let want = real.loc(&g.cfg, rest[(o / s) as usize]).map_or(0, |l| real.content(&g.cfg, l + o % s));
            if buf[i as usize] != want {
                return Err(format!("byte {} of the value is {:#04x}, expected {:#04x}", start + o, buf[i as usize], want));
            }
        }
        if off + exp < n as u64 * s && v.stream_position() != start + off + exp {
            return Err(format!("position is {}, expected {}", v.stream_position(), start + off + exp));
        }
        Ok(())
    };
    if n == 0 {
        return piece(v, 0, if want == 0 { 0 } else { 80 }, 0);
    }
    piece(v, 0, E, E)?;
    for u in 0..n as u64 {
        // a third of the way, and up to the end of the unit
        for at in [s / 3, s - E] {
            let d = at - (v.stream_position() - start - u * s);
            let mut nofs = std::io::Cursor::new(vec![]);
            match v.seek(&mut nofs, SeekFrom::Current(d as i64)) {
                Ok(p) if p == start + u * s + at => {}
                o => return Err(format!("seek to {} gave {:?}", start + u * s + at, o.map_err(|e| ename(&e)))),
            }
            if at < s - E {
                piece(v, u * s + at, E, E)?;
            }
        }
        let last = u + 1 == n as u64;
        piece(v, u * s + s - E, if last && want == n { E } else { 2 * E }, if last { E } else { 2 * E })?;
    }
    Ok(())
}

fn bfs_to_uncovered(g: &Graph, from: Key, left: &HashMap<Key, Vec<usize>>) -> Option<Vec<(Key, usize)>> {
    let mut prev: HashMap<Key, (Key, usize)> = HashMap::new();
    let mut q = VecDeque::from([from]);
    while let Some(k) = q.pop_front() {
        if left.get(&k).map(|l| !l.is_empty()).unwrap_or(false) {
            let mut path = vec![];
            let mut c = k;
            while c != from {
                let (p, i) = prev[&c];
                path.push((p, i));
                c = p;
            }
            path.reverse();
            return Some(path);
        }
        for (i, e) in g.nodes[&k].edges.iter().enumerate() {
            if e.to != from && !prev.contains_key(&e.to) && g.nodes.contains_key(&e.to) {
                prev.insert(e.to, (k, i));
                q.push_back(e.to);
            }
        }
    }
    None
}

pub fn replay(path: &str, out: &str, seed: u64, rounds: u64, places: bool) {
    let graphs = load(path);
    let mut rep = parallel(&graphs, |gi, g, rep| {
        for round in 0..rounds + 1 {
            let mut rng = Rng::new(seed ^ (gi as u64) << 20 ^ round << 50);
            let huge = round == rounds;
            if huge && g.cfg.kind == "res" {
                continue;
            }
            let real = build(&g.cfg, &mut rng, if huge { Unit::Huge } else { Unit::Small });
            walk(g, &real, &mut rng, rep, places);
        }
    });
    rep.add("configurations", graphs.len() as u64);
    rep.add("states", graphs.iter().map(|g| g.nodes.len() as u64).sum());
    rep.add("edges", graphs.iter().map(|g| g.nodes.values().map(|n| n.edges.len() as u64).sum::<u64>()).sum());
    rep.write(out);
}

/// Long behaviours (StreamSim.tla): one value and one sequence of operations with its results per line.
pub fn sim(path: &str, out: &str, seed: u64, rounds: u64, places: bool) {
    let lines = read_ndjson(path);
    let mut rep = parallel(&lines, |li, v, rep| {
        let ints = |x: &Value| ja(x).iter().map(ji).collect::<Vec<_>>();
        let content = ints(&v["content"]);
        let dp: Vec<Vec<i64>> = ja(&v["dp"]).iter().map(ints).collect();
        let dps: Vec<Vec<i64>> = ja(&v["dps"]).iter().map(ints).collect();
        let at = |t: &[Vec<i64>], p: i64| t.get(p as usize).cloned().unwrap_or(vec![-1]);
        // A chain of states: the position and the number of operations behind it.
        let mut nodes: BTreeMap<Key, Node> = BTreeMap::new();
        let mut p = 0i64;
        let ops = ja(&v["ops"]);
        for i in 0..=ops.len() {
            let mut edges = vec![];
            let mut to = p;
            if i < ops.len() {
                let o = &ops[i];
                to = ji(&o["to"]);
                edges.push(Edge { op: (js(&o["o"][0]).chars().next().unwrap(), ji(&o["o"][1])), n: ji(&o["n"]), to: [to, i as i64 + 1, 0, 0] });
            }
            let rest = content.get(p as usize..).unwrap_or(&[]).to_vec();
            nodes.insert([p, i as i64, 0, 0], Node { rest, dp: at(&dp, p), dps: at(&dps, p), edges });
            p = to;
        }
        let g = Graph { cfg: Cfg::parse(&v["cfg"]), nodes, start: [0; 4] };
        for round in 0..rounds {
            let mut rng = Rng::new(seed ^ (li as u64) << 20 ^ round << 50);
            let real = build(&g.cfg, &mut rng, if round % 2 == 1 { Unit::Huge } else { Unit::Small });
            chain(&g, &real, &mut rng, rep, places, usize::MAX);
        }
        if li % 6 == 0 && !places {
            let mut rng = Rng::new(seed ^ (li as u64) << 20 ^ 0x77 << 50);
            let real = build(&g.cfg, &mut rng, Unit::Wide);
            chain(&g, &real, &mut rng, rep, places, 24);
            rep.add("wide", 1);
        }
        rep.add("runs", g.cfg.runs.len() as u64);
    });
    rep.add("behaviours", lines.len() as u64);
    rep.write(out);
}

fn chain(g: &Graph, real: &Real, rng: &mut Rng, rep: &mut Report, places: bool, most: usize) {
    let mut fs = real.vol.disk.fork();
    let mut trail: Vec<(char, i64)> = vec![];
    let mut modes: Vec<u64> = vec![];
    let res = guard(|| -> Result<(), String> {
        let ntfs = Ntfs::new(&mut fs).map_err(|e| ename(&e))?;
        let file = ntfs.file(&mut fs, real.rec).map_err(|e| format!("file: {}", ename(&e)))?;
        let item = find_data(&file, &mut fs)?;
        let mut v = open_value(&g.cfg, &item, &mut fs)?;
        let mut at = g.start;
        while let Some(e) = g.nodes[&at].edges.first() {
            if trail.len() == most {
                break;
            }
            let mut mode = rng.below(12);
            if e.op.0 == 'R' && e.n < e.op.1 && mode % 4 == 3 {
                // a failed read_exact leaves the position open
                mode -= 1;
            }
            trail.push(e.op);
            modes.push(mode);
            let (nv, bad, _) = step(g, real, &mut fs, v, at, e, mode, places);
            // Copies go on independently.
            v = if mode == 5 { nv.clone() } else { nv };
            rep.add("steps", 1);
            if let Some(Mismatch(m)) = bad {
                return Err(m);
            }
            at = e.to;
        }
        Ok(())
    });
    rep.add("walks", 1);
    let ctx = || {
        json!({"model": "StreamSim", "cfg": g.cfg.raw, "variant": real.variant,
               "ops": trail.iter().map(|o| json!([o.0.to_string(), o.1])).collect::<Vec<_>>(), "modes": modes})
    };
    match res.clone() {
        Ok(Ok(())) => rep.sample(2, ctx),
        Ok(Err(_)) | Err(_) if places && !matches!(&res, Ok(Err(m)) if m.contains("data position")) => rep.add("lost", 1),
        Ok(Err(m)) | Err(m) => {
            let mut c = ctx();
            c["message"] = json!(m);
            rep.violation("stream", c);
        }
    }
}

fn walk(g: &Graph, real: &Real, rng: &mut Rng, rep: &mut Report, places: bool) {
    let mut fs = real.vol.disk.fork();
    let mut trail: Vec<(char, i64)> = vec![];
    let mut modes: Vec<u64> = vec![];
    let ctx = |trail: &[(char, i64)], modes: &[u64]| {
        json!({"model": "Stream", "cfg": g.cfg.raw, "variant": real.variant,
               "ops": trail.iter().map(|o| json!([o.0.to_string(), o.1])).collect::<Vec<_>>(), "modes": modes})
    };
    let res = guard(|| -> Result<(), String> {
        let ntfs = Ntfs::new(&mut fs).map_err(|e| ename(&e))?;
        let file = ntfs.file(&mut fs, real.rec).map_err(|e| format!("file: {}", ename(&e)))?;
        let item = find_data(&file, &mut fs)?;
        let first = open_value(&g.cfg, &item, &mut fs)?;
        let mut left: HashMap<Key, Vec<usize>> =
            g.nodes.iter().map(|(k, n)| (*k, { let mut v: Vec<usize> = (0..n.edges.len()).collect(); rng.shuffle(&mut v); v })).collect();
        let mut at = g.start;
        let mut v = (first.clone());
        // the initial position is part of the contract
        let dp0 = v.data_position().value().map(|x| x.get());
        if (places && !g.nodes[&at].dp.iter().any(|c| real.place(&g.cfg, *c) == dp0)) || v.stream_position() != 0 {
            return Err(format!("initial data position {:?} / position {}", dp0, v.stream_position()));
        }
        let mut queue: VecDeque<usize> = VecDeque::new();
        loop {
            let ei = if let Some(i) = queue.pop_front() {
                i
            } else if let Some(i) = left.get_mut(&at).and_then(|l| l.pop()) {
                i
            } else {
                match bfs_to_uncovered(g, at, &left) {
                    Some(p) if !p.is_empty() => {
                        for (_, i) in &p {
                            queue.push_back(*i);
                        }
                        continue;
                    }
                    _ => {
                        if at == g.start && trail.is_empty() {
                            break;
                        }
                        // only reachable from the start, if at all
                        match bfs_to_uncovered(g, g.start, &left) {
                            None => break,
                            Some(_) => {}
                        }
                        v = (if rng.chance(1, 2) { first.clone() } else { open_value(&g.cfg, &item, &mut fs)? });
                        at = g.start;
                        trail.clear();
                        modes.clear();
                        continue;
                    }
                }
            };
            let e = g.nodes[&at].edges[ei].clone();
            let mode = rng.below(12);
            trail.push(e.op);
            modes.push(mode);
            let (nv, bad, reset) = step(g, real, &mut fs, v, at, &e, mode, places);
            v = nv;
            rep.add("steps", 1);
            if let Some(Mismatch(m)) = bad {
                return Err(m);
            }
            if reset {
                v = (first.clone());
                at = g.start;
                trail.clear();
                modes.clear();
                queue.clear();
            } else {
                at = e.to;
                // keep histories readable
                if trail.len() > 400 {
                    v = (first.clone());
                    at = g.start;
                    trail.clear();
                    modes.clear();
                    queue.clear();
                }
            }
        }
        Ok(())
    });
    rep.add("walks", 1);
    match res.clone() {
        Ok(Ok(())) => {
            if g.cfg.runs.len() >= 2 || g.cfg.kind == "res" {
                rep.sample(4, || ctx(&trail[..trail.len().min(12)], &modes[..modes.len().min(12)]));
            }
        }
        Ok(Err(_)) | Err(_) if places && !matches!(&res, Ok(Err(m)) if m.contains("data position")) => rep.add("lost", 1),
        Ok(Err(m)) | Err(m) => {
            let mut c = ctx(&trail, &modes);
            c["message"] = json!(m);
            rep.violation("stream", c);
        }
    }
}
