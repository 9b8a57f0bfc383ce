//! A volume with everything in it: fragmented table, resident and non-resident values, values split over records, resident and
//! non-resident lists, directories of several levels, volume file, sparse runs.  Used for shared handles, faults and damage.
use crate::disk::pattern;
use crate::img::*;
use crate::util::*;

pub struct Rich {
    pub vol: Vol,
    /// Places of metadata on the device: what it is, position, length, protected (records).
    pub places: Vec<Place>,
    /// Contents of the streams: record, name, bytes.
    pub streams: Vec<(u64, &'static str, Vec<u8>)>,
    pub names: Vec<(String, u64)>,
    pub irs: u32,
    /// Position of the table of upcase characters.
    pub table: u64,
}
#[derive(Clone, Debug)]
pub struct Place {
    pub what: &'static str,
    pub runs: Vec<(u64, usize)>,
    pub protected: bool,
}
pub const NR: u64 = 24;
pub const LIST: u64 = 25;
pub const LISTNR: u64 = 26;
pub const RES: u64 = 27;
pub const SMALLDIR: u64 = 28;
pub const EMPTY: u64 = 29;

/// What a stream over these runs contains; untouched clusters carry the device's pattern.
pub fn content(cs: u64, runs: &[Run], size: u64, init: u64) -> Vec<u8> {
    let mut out = vec![];
    for r in runs {
        for o in 0..r.len * cs {
            out.push(r.lcn.map(|l| pattern(l * cs + o)).unwrap_or(0));
        }
    }
    out.truncate(size as usize);
    for b in out.iter_mut().skip(init as usize) {
        *b = 0;
    }
    out
}

pub fn key(parent: u64, name: &str, ns: u8) -> Vec<u8> {
    Fname::new(parent, &u16s(name), ns).bytes()
}

pub fn build(rng: &mut Rng) -> Rich {
    let cs = *rng.pick(&[512u64, 512, 1024, 2048]);
    let frs = 1024u64;
    let irs = *rng.pick(&[1024u32, 2048]);
    let u = |x: u64| x * frs / 512; // places in units that keep apart at every cluster size
    let per = if cs >= frs { 1 } else { frs / cs };
    // the table in three runs, the second one lying before the first
    let recs = |n: u64| if cs >= frs { n / (cs / frs) } else { n * per };
    let mft = vec![
        Run { lcn: Some(600), len: recs(26) },
        Run { lcn: Some(400), len: recs(10) },
        Run { lcn: Some(900), len: recs(14) },
    ];
    let mut vol = Vol::new(cs, 512, frs, 4000, mft);
    vol.vary_sectors(rng);
    let _ = u;
    let mut lcn = 1000u64;
    let mut take = |n: u64| {
        let l = lcn;
        lcn += n + 3;
        l
    };
    let mut places = vec![Place { what: "boot", runs: vec![(0, 512)], protected: false }];
    let mut streams = vec![];
    let std = |x: u8| attr_resident(T_STD, &[], 0, 0, &vec![x; 72]);
    let name = |n: &str, i: u16, parent: u64| attr_resident(T_NAME, &[], i, 1, &key(parent, n, 1));

    // the table's own record is written by put_mft_record
    vol.put_mft_record();
    vol.put(
        &Rec::new(3)
            .attr(std(3))
            .attr(name("$Volume", 1, 5))
            .attr(attr_resident(T_OBJID, &[], 2, 0, &(1..=64).collect::<Vec<u8>>()))
            .attr(attr_resident(T_VOLNAME, &[], 3, 0, &u16bytes(&u16s("vol name"))))
            .attr(attr_resident(T_VOLINFO, &[], 4, 0, &[0, 0, 0, 0, 0, 0, 0, 0, 3, 1, 1, 0])),
    );
    let up = take(131072 / cs);
    vol.put_upcase(up, crate::index::table(0));

    // 24: non-resident data with a sparse run and a place to go back to, and a resident stream
    let b2 = take(2);
    let a2 = take(2);
    let c1 = take(1);
    let runs = vec![
        Run { lcn: Some(a2), len: 2 },
        Run { lcn: None, len: 1 },
        Run { lcn: Some(b2), len: 2 },
        Run { lcn: Some(c1), len: 1 },
        Run { lcn: Some(c1 + 1), len: 1 },
    ];
    let (size, init) = (7 * cs - 100, 6 * cs + 77);
    streams.push((NR, "", content(cs, &runs, size, init)));
    let small: Vec<u8> = (0..100).map(|i| i as u8 + 100).collect();
    streams.push((NR, "abc", small.clone()));
    vol.put(
        &Rec::new(NR)
            .attr(std(4))
            .attr(name("nr", 1, 5))
            .attr(nr_simple(T_DATA, &[], 2, cs, &runs, size, init))
            .attr(attr_resident(T_DATA, &u16s("abc"), 3, 0, &small)),
    );

    // 25: resident list; data in three extents, one name in an extension record
    let extents = |vol: &mut Vol, base: u64, nums: [u64; 3], nm: &str, lens: [u64; 3], lcns: [Option<u64>; 3], size: u64, init: u64| {
        let n16 = u16s(nm);
        let total: u64 = lens.iter().sum();
        let mut v = 0;
        let mut ents = vec![];
        let mut all = vec![];
        for i in 0..3 {
            let run = Run { lcn: lcns[i], len: lens[i] };
            all.push(run.clone());
            let a = attr_nonresident(&Nr {
                ty: T_DATA,
                name: n16.clone(),
                instance: 2 + i as u16,
                flags: 0,
                lowest: v,
                highest: v + lens[i] - 1,
                runs: encode_runs(&[run]),
                alloc: if i == 0 { total * cs } else { 0 },
                size: if i == 0 { size } else { 0 },
                init: if i == 0 { init } else { 0 },
            });
            let mut r = Rec::new(nums[i]);
            r.base = base | 1 << 48;
            if i == 1 {
                r.attrs.push(name("in extension", 7, 5));
            }
            r.attrs.push(a);
            vol.put(&r);
            ents.push(ListEnt { ty: T_DATA, name: n16.clone(), lowest: v, fref: nums[i] | 1 << 48, instance: 2 + i as u16 });
            v += lens[i];
        }
        (ents, all)
    };
    let l = [Some(take(1)), None, Some(take(2))];
    let (size, init) = (4 * cs - 33, 4 * cs - 33);
    let (mut ents, all) = extents(&mut vol, LIST, [30, 32, 31], "", [1, 1, 2], l, size, init);
    streams.push((LIST, "", content(cs, &all, size, init)));
    ents.insert(0, ListEnt { ty: T_NAME, name: vec![], lowest: 0, fref: 32 | 1 << 48, instance: 7 });
    ents.insert(0, ListEnt { ty: T_NAME, name: vec![], lowest: 0, fref: LIST | 1 << 48, instance: 1 });
    ents.insert(0, ListEnt { ty: T_STD, name: vec![], lowest: 0, fref: LIST | 1 << 48, instance: 0 });
    vol.put(&Rec::new(LIST).attr(std(5)).attr(attr_resident(T_LIST, &[], 9, 0, &list_bytes(&ents))).attr(name("list", 1, 5)));

    // 26: non-resident list over two runs
    let l = [Some(take(2)), Some(take(1)), Some(take(2))];
    let (size, init) = (5 * cs, 3 * cs + 5);
    let (mut ents, all) = extents(&mut vol, LISTNR, [40, 41, 35], "s", [2, 1, 2], l, size, init);
    streams.push((LISTNR, "s", content(cs, &all, size, init)));
    ents.insert(0, ListEnt { ty: T_NAME, name: vec![], lowest: 0, fref: 41 | 1 << 48, instance: 7 });
    ents.insert(0, ListEnt { ty: T_STD, name: vec![], lowest: 0, fref: LISTNR | 1 << 48, instance: 0 });
    // a value that begins in the base record and goes on in an extension record
    let tl = [take(1), take(2)];
    let tall = [Run { lcn: Some(tl[0]), len: 1 }, Run { lcn: Some(tl[1]), len: 2 }];
    streams.push((LISTNR, "t", content(cs, &tall, 3 * cs - 9, 3 * cs - 9)));
    let tpart = |i: usize| attr_nonresident(&Nr {
        ty: T_DATA,
        name: u16s("t"),
        instance: 12,
        flags: 0,
        lowest: i as u64,
        highest: 2 * i as u64,
        runs: encode_runs(&tall[i..=i]),
        alloc: if i == 0 { 3 * cs } else { 0 },
        size: if i == 0 { 3 * cs - 9 } else { 0 },
        init: if i == 0 { 3 * cs - 9 } else { 0 },
    });
    let mut r37 = Rec::new(37);
    r37.base = LISTNR | 1 << 48;
    r37.attrs.push(tpart(1));
    vol.put(&r37);
    ents.push(ListEnt { ty: T_DATA, name: u16s("t"), lowest: 0, fref: LISTNR | 1 << 48, instance: 12 });
    ents.push(ListEnt { ty: T_DATA, name: u16s("t"), lowest: 1, fref: 37 | 1 << 48, instance: 12 });
    for i in 0..6 {
        let n = format!("stream number {:02} with a long name", i);
        ents.push(ListEnt { ty: T_DATA, name: u16s(&n), lowest: 0, fref: 36 | 1 << 48, instance: 20 + i });
    }
    let lb = list_bytes(&ents);
    let clusters = (lb.len() as u64 + cs - 1) / cs;
    let mut lruns = vec![];
    let mut at = 0;
    for k in [clusters / 2, clusters - clusters / 2] {
        if k == 0 {
            continue;
        }
        let p = take(k);
        let piece = &lb[at as usize..usize::min(lb.len(), (at + k * cs) as usize)];
        vol.disk.write(p * cs, piece);
        places.push(Place { what: "list", runs: vec![(p * cs, piece.len())], protected: false });
        lruns.push(Run { lcn: Some(p), len: k });
        at += k * cs;
    }
    let mut r36 = Rec::new(36);
    r36.base = LISTNR | 1 << 48;
    for i in 0..6 {
        r36.attrs.push(attr_resident(T_DATA, &u16s(&format!("stream number {:02} with a long name", i)), 20 + i, 0, &[i as u8; 30]));
    }
    vol.put(&r36);
    vol.put(
        &Rec::new(LISTNR)
            .attr(std(6))
            .attr(nr_simple(T_LIST, &[], 1, cs, &lruns, lb.len() as u64, lb.len() as u64))
            .attr(tpart(0))
            .attr(attr_resident(T_BITMAP, &u16s("$I30"), 5, 0, &[1, 2, 3, 4, 5, 6, 7, 8])),
    );

    // 27: a record used to its last byte
    let front = Rec::new(RES).attr(std(7)).attr(name("res", 1, SMALLDIR));
    let room = frs as usize - Rec::attrs_off(frs as usize) - front.attrs.iter().map(Vec::len).sum::<usize>() - 24 - 8;
    let data: Vec<u8> = (0..room).map(|i| (i * 7 % 251) as u8).collect();
    streams.push((RES, "", data.clone()));
    vol.put(&front.attr(attr_resident(T_DATA, &[], 2, 0, &data)));
    vol.put(&Rec::new(EMPTY).attr(std(8)).attr(name("empty", 1, 5)).attr(nr_simple(T_DATA, &[], 2, cs, &[], 0, 0)));
    streams.push((EMPTY, "", vec![]));

    // 28: a directory without subnodes
    let e = |num: u64, dir: u64, n: &str, sub: Option<i64>| Ent { fref: num | 1 << 48, key: key(dir, n, 3), sub, last: false };
    let last = |sub: Option<i64>| Ent { fref: 0, key: vec![], sub, last: true };
    let root = index_root_value(irs, 1, &[e(RES, SMALLDIR, "A", None), e(RES, SMALLDIR, "res", None), last(None)], false);
    vol.put(&Rec::dir(SMALLDIR).attr(std(9)).attr(name("small", 1, 5)).attr(attr_resident(T_IROOT, &u16s("$I30"), 2, 0, &root)));

    // 5: three levels; nodes in two runs, one unused
    let unit = u64::min(cs, 512).max(if (irs as u64) < cs { 512 } else { cs });
    let nv = |node: u64| (node * irs as u64 / unit) as i64;
    let names = ["a", "empty", "f", "list", "listnr", "nr", "o", "res", "small", "x"];
    let nums = [NR, EMPTY, NR, LIST, LISTNR, NR, RES, RES, SMALLDIR, EMPTY];
    let k = |i: usize, sub: Option<i64>| e(nums[i], 5, names[i], sub);
    let nodes: Vec<(u64, Vec<Ent>)> = vec![
        (3, vec![k(0, None), k(1, None), last(None)]),
        (1, vec![k(2, Some(nv(3))), k(4, Some(nv(4))), last(Some(nv(0)))]),
        (4, vec![k(3, None), last(None)]),
        (0, vec![last(None)]),
        (5, vec![k(6, None), k(7, None), k(9, None), last(None)]),
    ];
    // keys in order: [0 1] 2 [3] 4 [] 5(root) [6 7 9]; "small" (8) stands between and goes into the node as well
    let bytes = 6 * irs as u64;
    let clusters = (bytes + cs - 1) / cs;
    let first = ((2 * irs as u64) / cs).max(1);
    let r1 = take(clusters);
    let r0 = take(first);
    let aruns = vec![Run { lcn: Some(r0), len: first }, Run { lcn: Some(r1), len: clusters - first }];
    let pos = |o: u64| if o < first * cs { r0 * cs + o } else { r1 * cs + o - first * cs };
    for n in 0..6u64 {
        let ents: Vec<Ent> = match nodes.iter().find(|x| x.0 == n) {
            None => vec![last(None)],
            Some((5, _)) => vec![k(6, None), k(7, None), k(8, None), k(9, None), last(None)],
            Some((_, v)) => v.clone(),
        };
        let b = index_record(irs as usize, nv(n), &ents, 11 + n as u16);
        let mut runs: Vec<(u64, usize)> = vec![];
        for (i, piece) in b.chunks(512).enumerate() {
            let p = pos(n * irs as u64 + 512 * i as u64);
            vol.disk.write(p, piece);
            match runs.last_mut() {
                Some(l) if l.0 + l.1 as u64 == p => l.1 += 512,
                _ => runs.push((p, 512)),
            }
        }
        places.push(Place { what: "index record", runs, protected: true });
    }
    let root = index_root_value(irs, 1, &[k(5, Some(nv(1))), last(Some(nv(5)))], true);
    let i30 = u16s("$I30");
    let mut dir = Rec::dir(5).attr(std(1));
    // The allocation may begin in the record of the directory and go on in another one, or be there as a whole.
    let ext = rng.below(3);
    let part = |i: usize, from: usize, to: usize| {
        let v: u64 = aruns[..from].iter().map(|r| r.len).sum();
        let k: u64 = aruns[from..to].iter().map(|r| r.len).sum();
        attr_nonresident(&Nr {
            ty: T_IALLOC,
            name: i30.clone(),
            instance: 3,
            flags: 0,
            lowest: v,
            highest: v + k - 1,
            runs: encode_runs(&aruns[from..to]),
            alloc: if i == 0 { clusters * cs } else { 0 },
            size: if i == 0 { bytes } else { 0 },
            init: if i == 0 { bytes } else { 0 },
        })
    };
    if ext > 0 {
        let mut r38 = Rec::new(38);
        r38.base = 5 | 1 << 48;
        r38.attrs.push(if ext == 1 { part(1, 1, 2) } else { part(0, 0, 2) });
        vol.put(&r38);
        let ent = |ty: u32, name: &[u16], lowest: u64, num: u64, instance: u16| ListEnt { ty, name: name.to_vec(), lowest, fref: num | 1 << 48, instance };
        let mut ents = vec![ent(T_STD, &[], 0, 5, 0), ent(T_NAME, &[], 0, 5, 1), ent(T_IROOT, &i30, 0, 5, 2)];
        if ext == 1 {
            ents.push(ent(T_IALLOC, &i30, 0, 5, 3));
            ents.push(ent(T_IALLOC, &i30, first, 38, 3));
        } else {
            ents.push(ent(T_IALLOC, &i30, 0, 38, 3));
        }
        ents.push(ent(T_BITMAP, &i30, 0, 5, 4));
        let lb = list_bytes(&ents);
        dir = if rng.chance(1, 2) {
            dir.attr(attr_resident(T_LIST, &[], 9, 0, &lb))
        } else {
            let k = (lb.len() as u64 + cs - 1) / cs;
            let p = take(k);
            vol.disk.write(p * cs, &lb);
            places.push(Place { what: "list", runs: vec![(p * cs, lb.len())], protected: false });
            dir.attr(nr_simple(T_LIST, &[], 9, cs, &[Run { lcn: Some(p), len: k }], lb.len() as u64, lb.len() as u64))
        };
    }
    dir = dir.attr(name(".", 1, 5)).attr(attr_resident(T_IROOT, &i30, 2, 0, &root));
    if ext < 2 {
        dir = dir.attr(part(0, 0, if ext == 0 { 2 } else { 1 }));
    }
    vol.put(&dir.attr(attr_resident(T_BITMAP, &i30, 4, 0, &[0x3F, 0, 0, 0, 0, 0, 0, 0])));
    for n in [0u64, 3, 5, 10, NR, LIST, LISTNR, RES, SMALLDIR, EMPTY, 30, 31, 32, 35, 36, 37, 38, 40, 41] {
        if n == 38 && ext == 0 {
            continue;
        }
        places.push(Place { what: "file record", runs: vec![(vol.mft_pos(n * frs).unwrap(), frs as usize)], protected: true });
    }
    Rich { vol, places, streams, names: names.iter().zip(nums).map(|(a, b)| (a.to_string(), b)).collect(), irs, table: up * cs }
}
