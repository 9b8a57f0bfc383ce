//! Timestamps (Time.tla, C19).
use crate::util::*;
use ntfs::NtfsTime;
use serde_json::{json, Value};
use std::time::{Duration, SystemTime};
use time::{Date, Month, OffsetDateTime, Time, UtcOffset};

fn num(v: &Value) -> u128 {
    ja(v).iter().enumerate().map(|(i, b)| (ji(b) as u128) << (8 * i)).sum()
}
fn le(v: u64) -> Value {
    json!(v.to_le_bytes().to_vec())
}
const UNIX: u128 = 116_444_736_000_000_000;

fn sys(nanos: u128) -> SystemTime {
    SystemTime::UNIX_EPOCH + Duration::new((nanos / 1_000_000_000) as u64, (nanos % 1_000_000_000) as u32)
}

fn one(c: &Value, rng: &mut Rng, rep: &mut Report) -> Result<(), String> {
    let (y, s, tick, sub) = (ji(&c["y"]) as i32, ji(&c["s"]) as u32, ji(&c["tick"]) as u32, ji(&c["sub"]) as u32);
    let date = Date::from_calendar_date(y, Month::try_from(ji(&c["m"]) as u8).unwrap(), ji(&c["d"]) as u8).map_err(|e| panic!("{:?}", e)).unwrap();
    let nano = tick * 100 + sub;
    let utc = date.with_time(Time::from_hms_nano((s / 3600) as u8, (s / 60 % 60) as u8, (s % 60) as u8, nano).unwrap()).assume_utc();
    let off = UtcOffset::from_whole_seconds(rng.range(0, 14 * 3600) as i32 * if rng.chance(1, 2) { 1 } else { -1 }).unwrap();
    let want = jb(&c["ok"]).then(|| num(&c["t"]) as u64);
    let moved = match utc.checked_to_offset(off) {
        Some(o) => vec![utc, o],
        None => vec![utc],
    };
    for dt in moved {
        let got = NtfsTime::try_from(dt).map(|t| t.nt_timestamp());
        rep.add("from_date", 1);
        match (&got, want) {
            (Ok(g), Some(w)) if *g == w => {}
            (Err(_), None) => rep.add("no_timestamp", 1),
            _ => return Err(format!("{} becomes {:?}, expected {:?}", dt, got, want)),
        }
    }
    if let Some(w) = want {
        let t = NtfsTime::from(w);
        if t.nt_timestamp() != w {
            return Err("nt_timestamp".into());
        }
        let back = OffsetDateTime::from(t);
        let exact = utc.replace_nanosecond(tick * 100).unwrap();
        if back != exact || back.to_calendar_date() != exact.to_calendar_date() || back.time() != exact.time() || !back.offset().is_utc() {
            return Err(format!("timestamp {} becomes {}, expected {}", w, back, exact));
        }
        rep.add("to_date", 1);
        if NtfsTime::try_from(back).map(|t| t.nt_timestamp()).ok() != Some(w) {
            return Err(format!("timestamp {} does not come back from {}", w, back));
        }
        // order with the neighbours
        for o in [w.checked_sub(1), w.checked_add(1)].into_iter().flatten() {
            if NtfsTime::from(o).cmp(&t) != o.cmp(&w) || OffsetDateTime::from(NtfsTime::from(o)).cmp(&back) != o.cmp(&w) {
                return Err(format!("order of {} and {}", o, w));
            }
        }
        // the nanosecond before belongs to the tick before
        let before = NtfsTime::try_from(exact - time::Duration::nanoseconds(1)).map(|t| t.nt_timestamp()).ok();
        if before != w.checked_sub(1) {
            return Err(format!("the nanosecond before {} becomes {:?}", exact, before));
        }
    }
    // system time, for everything that has ticks
    if y >= 1601 {
        let t = num(&c["t"]);
        let st = if jb(&c["unix"]) {
            Some(sys((t - UNIX) * 100 + sub as u128))
        } else {
            let n = (UNIX - t) * 100 - sub as u128;
            SystemTime::UNIX_EPOCH.checked_sub(Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32))
        };
        if let Some(st) = st {
            let got = NtfsTime::try_from(st).map(|t| t.nt_timestamp()).ok();
            let want = if jb(&c["unix"]) { want } else { None };
            if got != want {
                return Err(format!("the system time of {} becomes {:?}, expected {:?}", utc, got, want));
            }
            rep.add("from_system", 1);
        }
    }
    Ok(())
}

pub fn replay(path: &str, out: &str, seed: u64) {
    let cases = read_ndjson(path);
    let rep = parallel(&cases, |ci, c, rep| {
        let mut rng = Rng::new(seed ^ (ci as u64) << 12);
        let r = guard(|| one(c, &mut rng, rep));
        if let Ok(Err(m)) | Err(m) = r {
            rep.violation("time", json!({"message": m, "case": c}));
        }
        rep.add("moments", 1);
        if ci % 20011 == 5 {
            rep.sample(3, || c.clone());
        }
    });
    rep.write(out);
}

pub fn record(trace: &str, out: &str, seed: u64, n: u64) {
    let mut rep = Report::default();
    let mut w = NdWriter::create(trace);
    let mut rng = Rng::new(seed ^ 0x71);
    // the last system time with a timestamp, and the first without one
    for (extra, ok) in [(0u128, true), (99, true), (100, false), (1_000_000_000_000, false), (1u128 << 80, false)] {
        let n = (u64::MAX as u128 - UNIX) * 100 + extra;
        if n / 1_000_000_000 > i64::MAX as u128 {
            continue;
        }
        let r = guard(|| NtfsTime::try_from(sys(n)).map(|t| t.nt_timestamp()).ok());
        if r != Ok(ok.then_some(u64::MAX)) {
            rep.violation("time-system-end", json!({"message": format!("system time {} ns after 1970 becomes {:?}", n, r)}));
        }
    }
    for st in [Some(SystemTime::UNIX_EPOCH), SystemTime::UNIX_EPOCH.checked_sub(Duration::from_nanos(1)), SystemTime::UNIX_EPOCH.checked_add(Duration::from_secs(i64::MAX as u64))].into_iter().flatten() {
        let want = (st == SystemTime::UNIX_EPOCH).then_some(UNIX as u64);
        let r = guard(|| NtfsTime::try_from(st).map(|t| t.nt_timestamp()).ok());
        if r != Ok(want) {
            rep.violation("time-system-edge", json!({"message": format!("{:?} becomes {:?}, expected {:?}", st, r, want)}));
        }
    }
    let mut all: Vec<(u64, OffsetDateTime)> = vec![];
    for _ in 0..n {
        let mut ev = vec![];
        for _ in 0..50 {
            let t = match rng.below(4) {
                0 => rng.next(),
                1 => rng.next() >> rng.below(64),
                2 => (UNIX as u64).wrapping_add(rng.next() >> rng.range(1, 63)),
                _ => (UNIX as u64).wrapping_sub(rng.next() >> rng.range(8, 63)),
            };
            let r = guard(|| {
                let nt = NtfsTime::from(t);
                let dt = OffsetDateTime::from(nt);
                let back = NtfsTime::try_from(dt).map(|t| t.nt_timestamp());
                let n = (dt - OffsetDateTime::UNIX_EPOCH).whole_nanoseconds();
                let st = if n >= 0 {
                    sys(n as u128)
                } else {
                    SystemTime::UNIX_EPOCH - Duration::new((-n / 1_000_000_000) as u64, (-n % 1_000_000_000) as u32)
                };
                let s = NtfsTime::try_from(st).map(|t| t.nt_timestamp());
                (dt, back, s)
            });
            match r {
                Ok((dt, Ok(back), s)) => {
                    let (y, m, d) = dt.to_calendar_date();
                    let (h, mi, se, na) = dt.to_hms_nano();
                    let sys = match s {
                        Err(_) => "early",
                        Ok(v) if v == t => "same",
                        Ok(_) => "other",
                    };
                    if sys == "other" {
                        rep.violation("time-system", json!({"message": format!("timestamp {} comes back differently from system time", t)}));
                    }
                    ev.push(json!({"t": le(t), "date": [y, m as u8, d, h as u32 * 3600 + mi as u32 * 60 + se as u32, na / 100], "sub": na % 100, "back": le(back), "sys": sys}));
                    all.push((t, dt));
                }
                Ok((dt, Err(e), _)) => rep.violation("time-record", json!({"message": format!("timestamp {} becomes {} and then {:?}", t, dt, e)})),
                Err(m) => rep.violation("time-record", json!({"message": format!("timestamp {}: {}", t, m)})),
            }
        }
        rep.add("timestamps", ev.len() as u64);
        w.put(&json!({"ev": ev}));
    }
    all.sort();
    for p in all.windows(2) {
        if p[0].0.cmp(&p[1].0) != p[0].1.cmp(&p[1].1) {
            rep.violation("time-order", json!({"message": format!("{} and {} are not ordered like their times", p[0].0, p[1].0)}));
        }
    }
    rep.write(out);
}
