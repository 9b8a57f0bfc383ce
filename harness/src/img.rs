//! Independent NTFS image builder (writes the on-disk format; shares no code with the crate under test).
use crate::disk::Disk;

pub const T_STD: u32 = 0x10;
pub const T_LIST: u32 = 0x20;
pub const T_NAME: u32 = 0x30;
pub const T_OBJID: u32 = 0x40;
pub const T_VOLNAME: u32 = 0x60;
pub const T_VOLINFO: u32 = 0x70;
pub const T_DATA: u32 = 0x80;
pub const T_IROOT: u32 = 0x90;
pub const T_IALLOC: u32 = 0xA0;
pub const T_BITMAP: u32 = 0xB0;

pub fn w16(b: &mut [u8], o: usize, v: u16) {
    b[o..o + 2].copy_from_slice(&v.to_le_bytes());
}
pub fn w32(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_le_bytes());
}
pub fn w64(b: &mut [u8], o: usize, v: u64) {
    b[o..o + 8].copy_from_slice(&v.to_le_bytes());
}
pub fn r16(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(b[o..o + 2].try_into().unwrap())
}
pub fn r32(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
pub fn r64(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}
pub fn al8(n: usize) -> usize {
    (n + 7) & !7
}
pub fn u16s(s: &str) -> Vec<u16> {
    s.encode_utf16().collect()
}
pub fn u16bytes(s: &[u16]) -> Vec<u8> {
    s.iter().flat_map(|c| c.to_le_bytes()).collect()
}

/// One run: `lcn == None` is sparse.
#[derive(Clone, Debug, PartialEq)]
pub struct Run {
    pub lcn: Option<u64>,
    pub len: u64,
}

fn min_unsigned(v: u64) -> usize {
    let mut n = 1;
    while n < 8 && (v >> (8 * n)) != 0 {
        n += 1;
    }
    n
}
fn min_signed(v: i64) -> usize {
    let mut n = 1;
    while n < 8 {
        let s = 64 - 8 * n as u32;
        if (v << s) >> s == v {
            break;
        }
        n += 1;
    }
    n
}

/// Encodes runs like NTFS does; lengths are kept small enough to be positive in signed notation too.
pub fn encode_runs(runs: &[Run]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut prev: i64 = 0;
    for r in runs {
        let mut nl = min_unsigned(r.len);
        if nl < 8 && (r.len >> (8 * nl - 1)) & 1 == 1 {
            nl += 1;
        }
        match r.lcn {
            None => {
                out.push(nl as u8);
                out.extend_from_slice(&r.len.to_le_bytes()[..nl]);
            }
            Some(l) => {
                let d = (l as i64).wrapping_sub(prev);
                prev = l as i64;
                let nd = min_signed(d);
                out.push((nd << 4 | nl) as u8);
                out.extend_from_slice(&r.len.to_le_bytes()[..nl]);
                out.extend_from_slice(&d.to_le_bytes()[..nd]);
            }
        }
    }
    out.push(0);
    out
}

pub fn attr_resident(ty: u32, name: &[u16], instance: u16, flags: u16, value: &[u8]) -> Vec<u8> {
    let vo = al8(24 + name.len() * 2);
    let len = al8(vo + value.len());
    let mut a = vec![0u8; len];
    w32(&mut a, 0, ty);
    w32(&mut a, 4, len as u32);
    a[8] = 0;
    a[9] = name.len() as u8;
    w16(&mut a, 10, 24);
    w16(&mut a, 12, flags);
    w16(&mut a, 14, instance);
    w32(&mut a, 16, value.len() as u32);
    w16(&mut a, 20, vo as u16);
    a[24..24 + name.len() * 2].copy_from_slice(&u16bytes(name));
    a[vo..vo + value.len()].copy_from_slice(value);
    a
}

#[derive(Clone, Debug)]
pub struct Nr {
    pub ty: u32,
    pub name: Vec<u16>,
    pub instance: u16,
    pub flags: u16,
    pub lowest: u64,
    pub highest: u64,
    pub runs: Vec<u8>,
    pub alloc: u64,
    pub size: u64,
    pub init: u64,
}

pub fn attr_nonresident(n: &Nr) -> Vec<u8> {
    let ro = al8(64 + n.name.len() * 2);
    let len = al8(ro + n.runs.len());
    let mut a = vec![0u8; len];
    w32(&mut a, 0, n.ty);
    w32(&mut a, 4, len as u32);
    a[8] = 1;
    a[9] = n.name.len() as u8;
    w16(&mut a, 10, 64);
    w16(&mut a, 12, n.flags);
    w16(&mut a, 14, n.instance);
    w64(&mut a, 16, n.lowest);
    w64(&mut a, 24, n.highest);
    w16(&mut a, 32, ro as u16);
    w64(&mut a, 40, n.alloc);
    w64(&mut a, 48, n.size);
    w64(&mut a, 56, n.init);
    a[64..64 + n.name.len() * 2].copy_from_slice(&u16bytes(&n.name));
    a[ro..ro + n.runs.len()].copy_from_slice(&n.runs);
    a
}

pub fn nr_simple(ty: u32, name: &[u16], instance: u16, cs: u64, runs: &[Run], size: u64, init: u64) -> Vec<u8> {
    let clusters: u64 = runs.iter().map(|r| r.len).sum();
    attr_nonresident(&Nr {
        ty,
        name: name.to_vec(),
        instance,
        flags: if runs.iter().any(|r| r.lcn.is_none()) { 0x8000 } else { 0 },
        lowest: 0,
        highest: clusters.wrapping_sub(1),
        runs: encode_runs(runs),
        alloc: clusters.wrapping_mul(cs),
        size,
        init,
    })
}

/// Writes the update sequence protection over `rec` (usa at `off`, `usn`), saving the original sector ends.
pub fn protect(rec: &mut [u8], off: usize, usn: u16) {
    let n = rec.len() / 512;
    w16(rec, 4, off as u16);
    w16(rec, 6, (n + 1) as u16);
    w16(rec, off, usn);
    for i in 0..n {
        let e = (i + 1) * 512 - 2;
        let (a, b) = (rec[e], rec[e + 1]);
        rec[off + 2 + 2 * i] = a;
        rec[off + 3 + 2 * i] = b;
        w16(rec, e, usn);
    }
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub num: u64,
    pub seq: u16,
    pub links: u16,
    pub flags: u16,
    pub base: u64,
    pub attrs: Vec<Vec<u8>>,
    pub usn: u16,
}

impl Rec {
    pub fn new(num: u64) -> Rec {
        Rec { num, seq: 1, links: 1, flags: 1, base: 0, attrs: vec![], usn: 5 }
    }
    pub fn dir(num: u64) -> Rec {
        Rec { flags: 3, ..Rec::new(num) }
    }
    pub fn attr(mut self, a: Vec<u8>) -> Rec {
        self.attrs.push(a);
        self
    }
    /// Offset of the first attribute in a record of `frs` bytes.
    pub fn attrs_off(frs: usize) -> usize {
        al8(48 + 2 + 2 * (frs / 512))
    }
    pub fn plain(&self, frs: usize) -> Vec<u8> {
        let mut b = vec![0u8; frs];
        b[0..4].copy_from_slice(b"FILE");
        w16(&mut b, 4, 48);
        w16(&mut b, 6, (frs / 512 + 1) as u16);
        w64(&mut b, 8, 0x1122_3344_5566);
        w16(&mut b, 16, self.seq);
        w16(&mut b, 18, self.links);
        let mut o = Self::attrs_off(frs);
        w16(&mut b, 20, o as u16);
        w16(&mut b, 22, self.flags);
        w32(&mut b, 28, frs as u32);
        w64(&mut b, 32, self.base);
        w16(&mut b, 40, 100);
        w32(&mut b, 44, self.num as u32);
        for a in &self.attrs {
            assert!(o + a.len() + 8 <= frs, "attributes do not fit into the record");
            b[o..o + a.len()].copy_from_slice(a);
            o += a.len();
        }
        w32(&mut b, o, 0xFFFF_FFFF);
        w32(&mut b, 24, (o + 8) as u32);
        b
    }
    pub fn bytes(&self, frs: usize) -> Vec<u8> {
        let mut b = self.plain(frs);
        protect(&mut b, 48, self.usn);
        b
    }
}

#[derive(Clone, Debug)]
pub struct Fname {
    pub parent: u64,
    pub times: [u64; 4],
    pub alloc: u64,
    pub size: u64,
    pub attrs: u32,
    pub reparse: u32,
    pub ns: u8,
    pub name: Vec<u16>,
}

impl Fname {
    pub fn new(parent: u64, name: &[u16], ns: u8) -> Fname {
        Fname {
            parent: parent | 1 << 48,
            times: [132539328000000000, 132539328000000001, 132539328000000002, 132539328000000003],
            alloc: 4096,
            size: 1234,
            attrs: 0x20,
            reparse: 0,
            ns,
            name: name.to_vec(),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = vec![0u8; 66];
        w64(&mut b, 0, self.parent);
        for i in 0..4 {
            w64(&mut b, 8 + 8 * i, self.times[i]);
        }
        w64(&mut b, 40, self.alloc);
        w64(&mut b, 48, self.size);
        w32(&mut b, 56, self.attrs);
        w32(&mut b, 60, self.reparse);
        b[64] = self.name.len() as u8;
        b[65] = self.ns;
        b.extend(u16bytes(&self.name));
        b
    }
}

#[derive(Clone, Debug)]
pub struct Ent {
    pub fref: u64,
    pub key: Vec<u8>,
    pub sub: Option<i64>,
    pub last: bool,
}

impl Ent {
    pub fn bytes(&self) -> Vec<u8> {
        let mut len = al8(16 + self.key.len());
        if self.sub.is_some() {
            len += 8;
        }
        let mut b = vec![0u8; len];
        w64(&mut b, 0, self.fref);
        w16(&mut b, 8, len as u16);
        w16(&mut b, 10, self.key.len() as u16);
        b[12] = (self.sub.is_some() as u8) | ((self.last as u8) << 1);
        b[16..16 + self.key.len()].copy_from_slice(&self.key);
        if let Some(v) = self.sub {
            w64(&mut b, len - 8, v as u64);
        }
        b
    }
}

pub fn index_root_value(irs: u32, clusters_per: i8, entries: &[Ent], large: bool) -> Vec<u8> {
    let body: Vec<u8> = entries.iter().flat_map(|e| e.bytes()).collect();
    let mut b = vec![0u8; 32];
    w32(&mut b, 0, T_NAME);
    w32(&mut b, 4, 1);
    w32(&mut b, 8, irs);
    b[12] = clusters_per as u8;
    w32(&mut b, 16, 16);
    w32(&mut b, 20, 16 + body.len() as u32);
    w32(&mut b, 24, 16 + body.len() as u32);
    b[28] = large as u8;
    b.extend(body);
    b
}

pub fn index_record_plain(irs: usize, vcn: i64, entries: &[Ent]) -> Vec<u8> {
    let body: Vec<u8> = entries.iter().flat_map(|e| e.bytes()).collect();
    let mut b = vec![0u8; irs];
    b[0..4].copy_from_slice(b"INDX");
    w64(&mut b, 8, 0x77);
    w64(&mut b, 16, vcn as u64);
    let eo = al8(40 + 2 + 2 * (irs / 512)) - 24;
    w32(&mut b, 24, eo as u32);
    w32(&mut b, 28, (eo + body.len()) as u32);
    w32(&mut b, 32, (irs - 24) as u32);
    b[36] = entries.iter().any(|e| e.sub.is_some()) as u8;
    assert!(24 + eo + body.len() <= irs, "index entries do not fit");
    b[24 + eo..24 + eo + body.len()].copy_from_slice(&body);
    b
}

pub fn index_record(irs: usize, vcn: i64, entries: &[Ent], usn: u16) -> Vec<u8> {
    let mut b = index_record_plain(irs, vcn, entries);
    protect(&mut b, 40, usn);
    b
}

#[derive(Clone, Debug)]
pub struct ListEnt {
    pub ty: u32,
    pub name: Vec<u16>,
    pub lowest: u64,
    pub fref: u64,
    pub instance: u16,
}

pub fn list_bytes(ents: &[ListEnt]) -> Vec<u8> {
    list_bytes_padded(ents, &[])
}

/// A list whose entries have unused bytes at their ends.
pub fn list_bytes_padded(ents: &[ListEnt], pads: &[usize]) -> Vec<u8> {
    let mut out = vec![];
    for (i, e) in ents.iter().enumerate() {
        let len = al8(26 + e.name.len() * 2 + pads.get(i).copied().unwrap_or(0));
        let mut b = vec![0u8; len];
        w32(&mut b, 0, e.ty);
        w16(&mut b, 4, len as u16);
        b[6] = e.name.len() as u8;
        b[7] = 26;
        w64(&mut b, 8, e.lowest);
        w64(&mut b, 16, e.fref);
        w16(&mut b, 24, e.instance);
        b[26..26 + e.name.len() * 2].copy_from_slice(&u16bytes(&e.name));
        out.extend(b);
    }
    out
}

/// A volume under construction.
pub struct Vol {
    pub cs: u64,
    pub ss: u64,
    pub frs: u64,
    pub size: u64,
    pub mft: Vec<Run>,
    pub mft_size: u64,
    /// initialised size of the table (None: all of it)
    pub mft_init: Option<u64>,
    pub disk: Disk,
}

impl Vol {
    /// cluster size, sector size, file record size, number of clusters, MFT runs (first one must be located).
    pub fn new(cs: u64, ss: u64, frs: u64, clusters: u64, mft: Vec<Run>) -> Vol {
        let size = clusters * cs;
        let mut disk = Disk::new(size);
        disk.write(0, &boot_sector(cs, ss, frs, clusters, mft[0].lcn.unwrap()));
        let total: u64 = mft.iter().map(|r| r.len * cs).sum();
        Vol { cs, ss, frs, size, mft_size: total / frs * frs, mft_init: None, mft, disk }
    }
    /// A default small volume: cluster 512, 1K records, MFT of 64 records at cluster 16.
    pub fn small() -> Vol {
        Vol::new(512, 512, 1024, 1 << 16, vec![Run { lcn: Some(16), len: 128 }])
    }
    /// Another sector size that fits the clusters: nothing but the boot sector depends on it.
    pub fn vary_sectors(&mut self, rng: &mut crate::util::Rng) {
        let most = u64::min(self.cs, 4096) / 512;
        self.ss = 512 << rng.below(most.trailing_zeros() as u64 + 1);
        let b = boot_sector(self.cs, self.ss, self.frs, self.size / self.cs, self.mft[0].lcn.unwrap());
        self.disk.write(0, &b);
    }
    pub fn mft_pos(&self, stream_off: u64) -> Option<u64> {
        let mut o = stream_off;
        for r in &self.mft {
            let l = r.len * self.cs;
            if o < l {
                return r.lcn.map(|c| c * self.cs + o);
            }
            o -= l;
        }
        None
    }
    pub fn write_mft(&mut self, stream_off: u64, data: &[u8]) {
        for (i, b) in data.iter().enumerate() {
            if let Some(p) = self.mft_pos(stream_off + i as u64) {
                self.disk.write(p, &[*b]);
            }
        }
    }
    pub fn put_raw(&mut self, num: u64, bytes: &[u8]) {
        let off = num * self.frs;
        self.write_mft(off, bytes);
    }
    pub fn put(&mut self, r: &Rec) {
        let b = r.bytes(self.frs as usize);
        self.put_raw(r.num, &b);
    }
    pub fn mft_record(&self) -> Rec {
        Rec::new(0)
            .attr(attr_resident(T_STD, &[], 0, 0, &[0u8; 72]))
            .attr(nr_simple(T_DATA, &[], 1, self.cs, &self.mft, self.mft_size, self.mft_init.unwrap_or(self.mft_size)))
    }
    pub fn put_mft_record(&mut self) {
        let r = self.mft_record();
        self.put(&r);
    }
    /// Stores an upcase table file (record 10) at cluster `lcn`.
    pub fn put_upcase(&mut self, lcn: u64, table: &[u16]) {
        let b = u16bytes(table);
        let clusters = (b.len() as u64 + self.cs - 1) / self.cs;
        self.disk.write(lcn * self.cs, &b);
        let r = Rec::new(10).attr(nr_simple(
            T_DATA,
            &[],
            0,
            self.cs,
            &[Run { lcn: Some(lcn), len: clusters }],
            b.len() as u64,
            b.len() as u64,
        ));
        self.put(&r);
    }
}

pub fn ascii_upcase() -> Vec<u16> {
    (0..=65535u16)
        .map(|c| if (b'a' as u16..=b'z' as u16).contains(&c) { c - 32 } else { c })
        .collect()
}

pub fn boot_sector(cs: u64, ss: u64, frs: u64, clusters: u64, mft_lcn: u64) -> Vec<u8> {
    let mut b = vec![0u8; 512];
    b[0..3].copy_from_slice(&[0xEB, 0x52, 0x90]);
    b[3..11].copy_from_slice(b"NTFS    ");
    w16(&mut b, 11, ss as u16);
    let spc = cs / ss;
    b[13] = if spc <= 128 { spc as u8 } else { (-(spc.trailing_zeros() as i32)) as i8 as u8 };
    b[21] = 0xF8;
    w64(&mut b, 40, clusters * spc);
    w64(&mut b, 48, mft_lcn);
    w64(&mut b, 56, 2);
    b[64] = if frs % cs == 0 && frs / cs > 0 && frs / cs < 128 {
        (frs / cs) as u8
    } else {
        (-(frs.trailing_zeros() as i32)) as i8 as u8
    };
    b[68] = 1;
    w64(&mut b, 72, 0x1234_5678_9ABC_DEF0);
    b[510] = 0x55;
    b[511] = 0xAA;
    b
}
