//! Damaged volumes (Damage.tla, C14): plans from the specification are made concrete on a volume that has every structure, and the whole
//! library is walked over the result.
use crate::disk::Disk;
use crate::img::*;
use crate::rich::{self, Place, Rich};
use crate::util::*;
use crate::walk;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// An instance of a structure: in which place, at which offset of its plain bytes, and how far its container reaches.
#[derive(Clone, Debug)]
pub struct Inst {
    pub place: usize,
    pub o: usize,
    pub len: usize,
    pub rest: usize,
    /// type of the attribute, or 0
    pub ty: u32,
}

pub fn plain(d: &Disk, p: &Place) -> Vec<u8> {
    let mut b = vec![];
    for (o, n) in &p.runs {
        b.extend(d.peek(*o, *n));
    }
    if p.protected {
        let (off, n) = (r16(&b, 4) as usize, r16(&b, 6) as usize - 1);
        for i in 0..n {
            let (x, y) = (b[off + 2 + 2 * i], b[off + 3 + 2 * i]);
            b[512 * i + 510] = x;
            b[512 * i + 511] = y;
        }
    }
    b
}
pub fn put(d: &mut Disk, p: &Place, b: &[u8]) {
    let mut at = 0;
    for (o, n) in &p.runs {
        d.write(*o, &b[at..at + n]);
        at += n;
    }
}

fn index_entries(out: &mut Vec<(&'static str, Inst)>, b: &[u8], place: usize, first: usize, end: usize) {
    let mut o = first;
    while o + 16 <= end {
        let l = r16(b, o + 8) as usize;
        out.push(("index entry", Inst { place, o, len: l, rest: end - o, ty: 0 }));
        if r16(b, o + 10) > 0 {
            out.push(("key", Inst { place, o: o + 16, len: r16(b, o + 10) as usize, rest: o + l - (o + 16), ty: 0 }));
        }
        if l < 16 || b[o + 12] & 2 != 0 {
            break;
        }
        o += l;
    }
}
fn list_entries(out: &mut Vec<(&'static str, Inst)>, b: &[u8], place: usize, first: usize, end: usize) {
    let mut o = first;
    while o + 26 <= end {
        let l = r16(b, o + 4) as usize;
        if l < 26 {
            break;
        }
        out.push(("entry", Inst { place, o, len: l, rest: end - o, ty: 0 }));
        o += l;
    }
}

/// Every instance of every kind on the volume.
pub fn instances(r: &Rich) -> BTreeMap<&'static str, Vec<Inst>> {
    let mut out: Vec<(&'static str, Inst)> = vec![];
    for (pi, p) in r.places.iter().enumerate() {
        let b = plain(&r.vol.disk, p);
        let i = |o: usize, len: usize, rest: usize| Inst { place: pi, o, len, rest, ty: 0 };
        match p.what {
            "boot" => out.push(("boot", i(0, 512, 512))),
            "list" => list_entries(&mut out, &b, pi, 0, b.len()),
            "index record" => {
                out.push(("node", i(0, b.len(), b.len() - 24)));
                index_entries(&mut out, &b, pi, 24 + r32(&b, 24) as usize, 24 + r32(&b, 28) as usize);
            }
            _ => {
                out.push(("record", i(0, b.len(), b.len())));
                let used = r32(&b, 24) as usize;
                let mut o = r16(&b, 20) as usize;
                while o + 8 <= used && r32(&b, o) != 0xFFFF_FFFF {
                    let ty = r32(&b, o);
                    let len = r32(&b, o + 4) as usize;
                    if len == 0 || o + len > b.len() {
                        break;
                    }
                    let with = |i: Inst| Inst { ty, ..i };
                    out.push(("attr", with(i(o, len, used - o))));
                    if b[o + 8] == 0 {
                        out.push(("resident", with(i(o, len, used - o))));
                        let v = o + r16(&b, o + 20) as usize;
                        let vl = r32(&b, o + 16) as usize;
                        match ty {
                            T_STD => out.push(("std", i(v, vl, o + len - v))),
                            T_NAME => out.push(("file name", i(v, vl, o + len - v))),
                            T_OBJID => out.push(("objid", i(v, vl, o + len - v))),
                            T_VOLINFO => out.push(("volinfo", i(v, vl, o + len - v))),
                            T_LIST => list_entries(&mut out, &b, pi, v, v + vl),
                            T_IROOT => {
                                out.push(("root", i(v, vl, vl - 16)));
                                index_entries(&mut out, &b, pi, v + 16 + r32(&b, v + 16) as usize, v + 16 + r32(&b, v + 20) as usize);
                            }
                            _ => {}
                        }
                    } else {
                        out.push(("nonresident", with(i(o, len, used - o))));
                        let ro = r16(&b, o + 32) as usize;
                        out.push(("runs", with(i(o + ro, len - ro, len - ro))));
                    }
                    o += len;
                }
            }
        }
    }
    let mut m: BTreeMap<&'static str, Vec<Inst>> = BTreeMap::new();
    for (k, x) in out {
        m.entry(k).or_default().push(x);
    }
    m
}

/// The value a class stands for.
fn value(class: &str, old: u64, w: usize, rest: u64, rng: &mut Rng) -> u64 {
    if let Some((x, n)) = class.split_once(' ') {
        let n = n.parse::<i64>().unwrap() as u64;
        let v = match x {
            "=" => n,
            "self" => old.wrapping_add(n),
            _ => rest.wrapping_add(n),
        };
        return if w == 8 { v } else { v & ((1 << (8 * w)) - 1) };
    }
    let bits = 8 * w as u32;
    let max = if w == 8 { u64::MAX } else { (1 << bits) - 1 };
    (match class {
        "0" => 0,
        "1" => 1,
        "7" => 7,
        "8" => 8,
        "9" => 9,
        "16" => 16,
        "17" => 17,
        "max" => max,
        "max-1" => max - 1,
        "sign" => 1 << (bits - 1),
        "sign-1" => (1 << (bits - 1)) - 1,
        "self-1" => old.wrapping_sub(1),
        "self+1" => old.wrapping_add(1),
        "self-8" => old.wrapping_sub(8),
        "self+8" => old.wrapping_add(8),
        "rest" => rest,
        "rest-8" => rest.wrapping_sub(8),
        "rest-1" => rest.wrapping_sub(1),
        "rest+1" => rest + 1,
        "rest+8" => rest + 8,
        "swap" => old.swap_bytes() >> (64 - bits),
        "double" => old.wrapping_mul(2),
        "random" => rng.next() >> rng.below(bits as u64),
        "2^31" => 1 << 31.min(bits - 2),
        "2^62" => 1 << 62.min(bits - 2),
        c => panic!("class {}", c),
    }) & max
}

fn rw(b: &[u8], o: usize, w: usize) -> u64 {
    (0..w).map(|i| (b.get(o + i).copied().unwrap_or(0) as u64) << (8 * i)).sum()
}
fn ww(b: &mut [u8], o: usize, w: usize, v: u64) {
    for i in 0..w {
        if o + i < b.len() {
            b[o + i] = (v >> (8 * i)) as u8;
        }
    }
}

pub struct Base {
    pub rich: Rich,
    pub inst: BTreeMap<&'static str, Vec<Inst>>,
    pub names: Vec<String>,
}
pub fn bases(seed: u64, n: u64) -> Vec<Base> {
    (0..n)
        .map(|i| {
            let rich = rich::build(&mut Rng::new(seed * 1000 + i));
            let inst = instances(&rich);
            Base { rich, inst, names: ["a", "LIST", "small", "x", "zz", ""].iter().map(|s| s.to_string()).collect() }
        })
        .collect()
}

/// Applies damages to instances; returns the bytes written.
fn apply(base: &Base, d: &mut Disk, dmg: &[(Inst, i64, usize, String)], rng: &mut Rng) -> Vec<String> {
    let mut text = vec![];
    let mut by: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (i, x) in dmg.iter().enumerate() {
        by.entry(x.0.place).or_default().push(i);
    }
    for (pi, is) in by {
        let p = &base.rich.places[pi];
        let mut b = plain(&base.rich.vol.disk, p);
        let mut late = vec![];
        for i in is {
            let (inst, o, w, c) = &dmg[i];
            let at = if *o < 0 { (inst.o + inst.len) as i64 + o } else { inst.o as i64 + o } as usize;
            if *w == 16 {
                // one run in place of the list
                let cs = base.rich.vol.cs as u128;
                let len = *rng.pick(&[1u128, 1, 2, 7]);
                let all = (1u128 << 64) / cs;
                let lcn = match c.as_str() {
                    "top-1" => all - len - 1,
                    "top" => all - len,
                    "top+1" => all - len + 1,
                    _ => all / 2 - len,
                };
                let mut run = vec![0x81, len as u8];
                run.extend((lcn as u64).to_le_bytes());
                run.push(0);
                run.truncate(inst.len);
                b[at..at + run.len()].copy_from_slice(&run);
                text.push(format!("{} at {:?} byte {}: one run of {} clusters at {:#x}", p.what, p.runs, at, len, lcn));
                continue;
            }
            let old = rw(&b, at, *w);
            let new = value(c, old, *w, inst.rest as u64, rng);
            text.push(format!("{} at {:?} byte {} width {}: {:#x} -> {:#x}", p.what, p.runs, at, w, old, new));
            ww(&mut b, at, *w, new);
            late.push((at, *w, new));
        }
        if p.protected {
            // the sectors are protected where they were; a damaged update sequence stays damaged
            protect(&mut b, if p.what == "file record" { 48 } else { 40 }, 77);
            for (at, w, new) in late {
                if at < 8 {
                    ww(&mut b, at, w, new);
                }
            }
        }
        put(d, p, &b);
    }
    text
}

/// Allocations of gigabytes are the caller's choice of volume, not what is looked for here.
fn too_big(dmg: &[(Inst, i64, usize, String)]) -> bool {
    dmg.len() == 2 && dmg.iter().any(|x| x.2 == 4 && x.1 == 8 && x.3 != "0" && !x.3.starts_with("self") && !x.3.starts_with("rest")) && dmg.iter().any(|x| x.2 == 8 && x.1 == 48)
}

/// Watches that every walk ends: an operation that computes without accessing the device for minutes is reported by ending the process.
pub struct Watch {
    cur: Mutex<BTreeMap<usize, (Instant, String)>>,
}
impl Watch {
    pub fn start(out: &str) -> &'static Watch {
        let w: &'static Watch = Box::leak(Box::new(Watch { cur: Mutex::new(BTreeMap::new()) }));
        let out = out.to_string();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            let c = w.cur.lock().unwrap();
            if let Some((_, t)) = c.values().find(|x| x.0.elapsed() > Duration::from_secs(120)) {
                let mut r = Report::default();
                r.violation("endless", json!({"message": format!("an operation did not end within 120 s: {}", t)}));
                r.write(&out);
                std::process::exit(0);
            }
        });
        w
    }
    pub fn during<T>(&self, key: usize, text: impl FnOnce() -> String, f: impl FnOnce() -> T) -> T {
        self.cur.lock().unwrap().insert(key, (Instant::now(), text()));
        let r = f();
        self.cur.lock().unwrap().remove(&key);
        r
    }
}

pub struct Sink {
    pub traces: Mutex<BTreeMap<String, u64>>,
}

/// Walks one damaged device and files what came of it.
pub fn run(key: usize, watch: &Watch, sink: &Sink, base: &Base, d: &mut Disk, files: &[u64], rng: &mut Rng, rep: &mut Report, what: &dyn Fn() -> Value) {
    let r = watch.during(key, || what().to_string(), || guard(|| walk::walk(d, &base.names, files, rng)));
    match r {
        Ok(w) => {
            for (k, n) in &w.counts {
                rep.add(k, *n);
            }
            for (k, n) in &w.errors {
                rep.add("errors", *n);
                rep.add(&format!("error {}", k), *n);
            }
            if !w.traces.is_empty() {
                let mut s = sink.traces.lock().unwrap();
                for (k, n) in w.traces {
                    *s.entry(k).or_insert(0) += n;
                }
            }
        }
        Err(m) if m.contains("walk.rs") && !m.contains("VH ") => {
            eprintln!("the walker itself failed: {} at {}", m, walk::at());
            std::process::exit(3);
        }
        Err(m) => {
            let kind = if m.starts_with("endless") { "endless" } else { "panic" };
            rep.violation(kind, json!({"message": format!("{} during {}", m, walk::at()), "damage": what()}));
        }
    }
    rep.add("damaged volumes", 1);
}

pub const FILES: [u64; 22] = [0, 1, 3, 5, 10, 24, 25, 26, 27, 28, 29, 30, 31, 36, 40, 49, 50, 1 << 31, 1 << 47, u64::MAX, u64::MAX / 1024, 1 << 54];

/// Which files to look at: those the damage can show in, and some more.
fn files(all: bool, rng: &mut Rng) -> Vec<u64> {
    if all {
        return FILES.to_vec();
    }
    let mut f: Vec<u64> = vec![0, 3, 5, 24, 25, 26, 27, 28, 29, 30];
    f.push(*rng.pick(&FILES));
    f
}

pub fn replay(input: &str, out: &str, traces: &str, seed: u64, per: u64) {
    let plans = read_ndjson(input);
    let watch = Watch::start(out);
    let bases = bases(seed, 8);
    let sink = Sink { traces: Mutex::new(BTreeMap::new()) };
    let rep = parallel(&plans, |i, plan, rep| {
        let mut rng = Rng::new(seed ^ (i as u64) << 20);
        let ds = ja(&plan["d"]);
        let number = ds[0].get("n").is_some();
        let n = if number { (per / 20).max(1) * 6 } else if ds.len() == 1 { per } else { (per / 25).max(1) };
        let base0 = rng.below(bases.len() as u64);
        let mut order: Vec<usize> = vec![];
        for t in 0..n {
            let base = &bases[((base0 + t) % bases.len() as u64) as usize];
            let k0 = js(&ds[0]["k"]);
            let Some(insts) = base.inst.get(k0) else { continue };
            if order.is_empty() {
                order = (0..insts.len()).collect();
                rng.shuffle(&mut order);
                if number {
                    // one of every type of attribute first
                    let mut seen = BTreeMap::new();
                    let mut keyed: Vec<(usize, usize)> = order.iter().map(|i| { let c = seen.entry(insts[*i].ty).or_insert(0); *c += 1; (*c, *i) }).collect();
                    keyed.sort_by_key(|x| x.0);
                    order = keyed.iter().map(|x| x.1).collect();
                }
            }
            let a = insts[order[t as usize % order.len()] % insts.len()].clone();
            let mut dmg = vec![(a.clone(), ji(&ds[0]["o"]), ji(&ds[0]["w"]) as usize, match ds[0].get("n") { Some(n) => format!("{} {}", js(&ds[0]["c"]), ji(n)), None => js(&ds[0]["c"]).to_string() })];
            if let Some(x) = ds.get(1) {
                let b = if x.get("cross").is_some() {
                    // one of the same record if there is one
                    let v = &base.inst[js(&x["k"])];
                    let near: Vec<&Inst> = v.iter().filter(|y| y.place == a.place).collect();
                    // what lies in the first, if any does
                    let inside: Vec<&&Inst> = near.iter().filter(|y| y.o >= a.o && y.o < a.o + a.len).collect();
                    if !inside.is_empty() && rng.chance(3, 4) {
                        (**rng.pick(&inside)).clone()
                    } else if !near.is_empty() && rng.chance(7, 8) {
                        (*rng.pick(&near)).clone()
                    } else {
                        rng.pick(v).clone()
                    }
                } else {
                    a.clone()
                };
                dmg.push((b, ji(&x["o"]), ji(&x["w"]) as usize, js(&x["c"]).to_string()));
            }
            if too_big(&dmg) {
                rep.add("left out for their size", 1);
                continue;
            }
            let mut d = base.rich.vol.disk.fork();
            let text = apply(base, &mut d, &dmg, &mut rng);
            let f = files(rng.chance(1, 8), &mut rng);
            rep.sample(3, || json!({"plan": plan, "made": text}));
            run(i, watch, &sink, base, &mut d, &f, &mut rng, rep, &|| json!({"plan": plan, "made": text}));
        }
    });
    finish(rep, &sink, out, traces);
}

fn finish(mut rep: Report, sink: &Sink, out: &str, traces: &str) {
    let mut w = NdWriter::create(traces);
    let s = sink.traces.lock().unwrap();
    for (k, n) in s.iter() {
        let mut v: Value = serde_json::from_str(k).unwrap();
        v["seen"] = json!(n.min(&1_000_000_000));
        w.put(&v);
        rep.add("iterations", *n);
    }
    rep.add("different iterations", w.lines);
    rep.write(out);
}

/// Damage without a plan: single bytes, several bytes, pieces of one structure over another, devices that end early.
pub fn sweep(out: &str, traces: &str, seed: u64, n: u64) {
    let watch = Watch::start(out);
    let bases = bases(seed + 7, 8);
    let sink = Sink { traces: Mutex::new(BTreeMap::new()) };
    let work: Vec<u64> = (0..n).collect();
    let rep = parallel(&work, |i, _, rep| {
        let mut rng = Rng::new(seed.wrapping_mul(77) ^ (i as u64) << 24);
        let base = rng.pick(&bases);
        let mut d = base.rich.vol.disk.fork();
        let mut text = vec![];
        match rng.below(8) {
            0 => {
                // somewhere within or right behind a structure
                let p = rng.pick(&base.rich.places);
                let r = rng.pick(&p.runs);
                d.size = r.0 + rng.below(r.1 as u64 + 2);
                text.push(format!("device of {} bytes", d.size));
            }
            1 => {
                // raw bytes, torn sectors included
                for _ in 0..rng.range(1, 6) {
                    let p = rng.pick(&base.rich.places);
                    let r = rng.pick(&p.runs);
                    let at = r.0 + rng.below(r.1 as u64);
                    let v = *rng.pick(&[0u8, 0xFF, 0x80, 1, rng.0 as u8]);
                    text.push(format!("byte {} = {}", at, v));
                    d.write(at, &[v]);
                }
            }
            x => {
                for _ in 0..if x == 7 { rng.range(2, 3) } else { 1 } {
                    let p = rng.pick(&base.rich.places);
                    let mut b = plain(&base.rich.vol.disk, p);
                    let used = if p.what == "file record" { (r32(&b, 24) as usize).min(b.len()) } else if p.what == "index record" { (24 + r32(&b, 28) as usize).min(b.len()) } else { b.len() };
                    match x {
                        2..=4 => {
                            let at = if p.what == "boot" { rng.below(90) as usize } else { rng.below(used as u64) as usize };
                            let bit = b[at] ^ 1 << rng.below(8);
                            let v = *rng.pick(&[0u8, 0xFF, 0x7F, 0x80, 1, bit, b[at].wrapping_add(1), b[at].wrapping_sub(1), rng.0 as u8]);
                            text.push(format!("{} {:?} plain byte {} = {}", p.what, p.runs, at, v));
                            b[at] = v;
                        }
                        5 => {
                            for _ in 0..rng.range(2, 8) {
                                let at = rng.below(used as u64) as usize;
                                b[at] = rng.next() as u8;
                                text.push(format!("{} {:?} plain byte {} = {}", p.what, p.runs, at, b[at]));
                            }
                        }
                        _ => {
                            // bytes of this or another structure, moved
                            let q = rng.pick(&base.rich.places);
                            let src = plain(&base.rich.vol.disk, q);
                            let len = 8 * rng.range(1, 20) as usize;
                            let from = (8 * rng.below(src.len() as u64 / 8)) as usize;
                            let to = (8 * rng.below(used as u64 / 8 + 1)) as usize;
                            let len = len.min(src.len() - from).min(b.len() - to.min(b.len()));
                            let to = to.min(b.len());
                            b[to..to + len].copy_from_slice(&src[from..from + len]);
                            text.push(format!("{} bytes {}.. of {} {:?} at {} of {} {:?}", len, from, q.what, q.runs, to, p.what, p.runs));
                        }
                    }
                    if p.protected {
                        let head = b[..8].to_vec();
                        protect(&mut b, if p.what == "file record" { 48 } else { 40 }, 9);
                        b[..8].copy_from_slice(&head);
                    }
                    put(&mut d, p, &b);
                }
            }
        }
        let f = files(rng.chance(1, 8), &mut rng);
        rep.sample(3, || json!({"made": text}));
        run(i, watch, &sink, base, &mut d, &f, &mut rng, rep, &|| json!({"made": text}));
    });
    finish(rep, &sink, out, traces);
}
