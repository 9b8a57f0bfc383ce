//! The shell's sector reader (SectorReader.tla, C21).
use crate::disk::{Acc, Disk};
use crate::util::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{self, Read, Seek, SeekFrom};
use std::rc::Rc;

#[allow(dead_code)]
#[path = "/repo/examples/ntfs-shell/sector_reader.rs"]
mod sector_reader;
use sector_reader::SectorReader;

#[derive(Clone)]
struct Shared(Rc<RefCell<Disk>>);
impl Read for Shared {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0.borrow_mut().read(b)
    }
}
impl Seek for Shared {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.0.borrow_mut().seek(p)
    }
}

struct Step {
    r: Result<u64, String>,
    to: u64,
    buf: Vec<u8>,
    /// reads of the device: position, bytes, and whether a read was cut by its end
    acc: Vec<(u64, u64)>,
    inner: u64,
}

struct Run {
    d: Rc<RefCell<Disk>>,
    r: SectorReader<Shared>,
}
impl Run {
    fn new(ss: u64, size: u64) -> Run {
        let d = Rc::new(RefCell::new(Disk::new(size)));
        let r = SectorReader::new(Shared(d.clone()), ss as usize).expect("sector size");
        Run { d, r }
    }
    fn step(&mut self, op: &str, arg: i64) -> Result<Step, String> {
        self.d.borrow_mut().log = Some(vec![]);
        let mut buf = vec![];
        let r = guard(|| match op {
            "start" => self.r.seek(SeekFrom::Start(arg as u64)),
            "cur" => self.r.seek(SeekFrom::Current(arg)),
            "end" => self.r.seek(SeekFrom::End(arg)),
            _ => {
                buf = vec![0xEE; arg as usize];
                self.r.read(&mut buf).map(|n| n as u64)
            }
        })?;
        let log = self.d.borrow_mut().log.take().unwrap();
        let acc = log.iter().filter_map(|a| if let Acc::Read(p, n) = a { Some((*p, *n)) } else { None }).collect();
        let inner = self.d.borrow().pos;
        // where it believes to be; seeking by zero moves the device, so it is moved back
        let to = guard(|| self.r.seek(SeekFrom::Current(0)))?.map_err(|e| format!("{:?}", e))?;
        self.d.borrow_mut().pos = inner;
        Ok(Step { r: r.map_err(|e| format!("{:?}", e.kind())), to, buf, acc, inner })
    }
}

/// First position and number of bytes read, if the reads are contiguous.
fn span(acc: &[(u64, u64)]) -> Option<(u64, u64)> {
    let mut it = acc.iter().filter(|a| a.1 > 0);
    let (at, mut n) = *it.next()?;
    for a in it {
        if a.0 != at + n {
            return Some((u64::MAX, 1));
        }
        n += a.1;
    }
    Some((at, n))
}

fn play(c: &Value, rep: &mut Report) -> Result<(), Value> {
    let (ss, size) = (ji(&c["ss"]) as u64, ji(&c["size"]) as u64);
    let mut run = Run::new(ss, size);
    let hist = ja(&c["h"]);
    for (i, e) in hist.iter().enumerate() {
        let s = run.step(js(&e["op"]), ji(&e["arg"])).map_err(|m| json!({"message": m, "step": i}))?;
        rep.add("steps", 1);
        let to = ji(&e["to"]) as u64;
        let fail = |m: String| json!({"message": m, "step": i, "expected": e, "sector": ss});
        if js(&e["op"]) != "read" {
            if s.r.is_ok() != (e["r"] == "ok") || s.to != to || !s.acc.is_empty() {
                return Err(fail(format!("seek gives {:?}, position {}, device reads {:?}", s.r, s.to, s.acc)));
            }
            continue;
        }
        let (k, p) = (ji(&e["arg"]) as u64, ji(&e["p"]) as u64);
        let sp = span(&s.acc);
        if s.acc.iter().any(|a| a.0 % ss != 0) || sp.map(|x| x.1 % ss != 0).unwrap_or(false) {
            return Err(fail(format!("accesses {:?} are not whole sectors", s.acc)));
        }
        if !jb(&e["inside"]) {
            // beyond the device: as predicted or an error, nothing else
            rep.add("beyond", 1);
            if s.r.is_err() && s.to == p {
                if e["r"] != "error" {
                    return Ok(());
                }
                continue;
            }
            if s.r.is_ok() && e["r"] == "ok" {
                rep.add("beyond_shifted", 1);
                continue;
            }
            return Err(fail(format!("a read beyond the device gives {:?}", s.r)));
        }
        let disk = run.d.borrow();
        let right = [ji(&e["right"][0]) as u64, ji(&e["right"][1]) as u64];
        let good = s.r == Ok(k) && s.buf == disk.peek(p, k as usize) && s.to == p + k && (if right[1] == 0 { sp.is_none() } else { sp == Some((right[0], right[1])) });
        if good {
            rep.add("reads_right", 1);
            if e["kinds"].as_object().map(|o| !o.is_empty()).unwrap_or(false) {
                // better than predicted; what follows is not predicted any more
                return Ok(());
            }
            continue;
        }
        let (at, n) = (ji(&e["at"]) as u64, ji(&e["n"]) as u64);
        let predicted = if e["r"] == "ok" {
            s.r == Ok(k) && s.to == p + k && sp == Some((at, n)) && s.buf == disk.peek(ji(&e["from"]) as u64, k as usize)
        } else {
            s.r.is_err() && s.to == p
        };
        let kinds: Vec<String> = e["kinds"].as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
        if predicted && !kinds.is_empty() {
            for x in kinds {
                rep.add(&format!("known_{}", x), 1);
                rep.violation(&format!("sector-{}", x), json!({"message": "the known deviation", "finding": format!("sector-{}", x), "history": c["h"], "sector": ss}));
            }
            continue;
        }
        return Err(fail(format!("read of {} at {} gives {:?}, position {}, device reads {:?}, right bytes: {}", k, p, s.r, s.to, s.acc, s.buf == disk.peek(p, k as usize))));
    }
    Ok(())
}

pub fn replay(path: &str, out: &str) {
    let cases = read_ndjson(path);
    let rep = parallel(&cases, |ci, c, rep| {
        if let Err(mut m) = play(c, rep) {
            m["history"] = c["h"].clone();
            rep.violation("sector", m);
        }
        rep.add("histories", 1);
        if ci % 1000 == 1 {
            rep.sample(3, || c.clone());
        }
    });
    rep.write(out);
}

pub fn record(trace: &str, out: &str, seed: u64, n: u64) {
    let mut rep = Report::default();
    let mut w = NdWriter::create(trace);
    for t in 0..n {
        let mut rng = Rng::new(seed ^ t << 16 ^ 0x5EC);
        let ss = *rng.pick(&[512u64, 1024, 4096, 256]);
        let size = ss * rng.range(3, 20);
        let mut run = Run::new(ss, size);
        let mut ev = vec![];
        let mut pos = 0u64;
        let careful = rng.chance(1, 2);
        for _ in 0..60 {
            let (op, arg): (&str, i64) = match rng.below(5) {
                0 => ("start", rng.below(size + 10) as i64),
                1 => ("start", (rng.below(size / ss + 1) * ss) as i64),
                2 => ("cur", rng.range(0, 3 * ss) as i64 - ss as i64),
                _ => ("read", *rng.pick(&[0, 1, ss / 2, ss - 1, ss, ss + 1, 2 * ss, rng.0 % (3 * ss)]) as i64),
            };
            let mut ops = vec![];
            if op == "read" && careful {
                ops.push(("start", pos as i64));
            }
            ops.push((op, arg));
            for (op, arg) in ops {
                match run.step(op, arg) {
                    Err(m) => {
                        rep.violation("sector-record", json!({"message": m, "op": op, "arg": arg}));
                    }
                    Ok(s) => {
                        let d = run.d.borrow();
                        let sp = span(&s.acc).unwrap_or((0, 0));
                        let good = op == "read" && s.buf == d.peek(pos, s.buf.len());
                        let shifted = op == "read" && s.buf == d.peek(sp.0.wrapping_add(pos % ss), s.buf.len());
                        ev.push(json!({"op": op, "arg": arg, "r": if s.r.is_ok() { "ok" } else { "error" }, "to": s.to, "at": sp.0.min(1 << 30), "n": sp.1, "good": good, "shifted": shifted, "inner": s.inner.min(1 << 30)}));
                        pos = s.to;
                    }
                }
            }
        }
        match run.step("end", -3) {
            Ok(s) if s.r.is_err() && s.to == pos => {}
            x => rep.violation("sector-end", json!({"message": format!("seek from the end: {:?}", x.map(|s| s.r))})),
        }
        rep.add("events", ev.len() as u64);
        w.put(&json!({"ss": ss, "size": size, "ev": ev}));
    }
    for ss in [0usize, 3, 511, 513, 1000] {
        if SectorReader::new(io::Cursor::new(vec![0u8; 16]), ss).is_ok() {
            rep.violation("sector-size", json!({"message": format!("sector size {} is accepted", ss)}));
        }
    }
    rep.write(out);
}
