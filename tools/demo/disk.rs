//! Simulated block device: a sparse 64-bit address space whose every byte has a known,
//! position-dependent value unless it was written, with an access log, fault injection and
//! an access budget (an operation that exceeds the budget is reported as endless).
use std::collections::HashMap;
use std::io::{self, Read, Seek, SeekFrom};

const CH: u64 = 4096;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// Deliver at most this many bytes (>= 1).
    Short(usize),
    /// Fail once with ErrorKind::Interrupted.
    Interrupted,
    /// Fail with another I/O error.
    Fail,
    /// A read delivers nothing, as at the end of the device.
    Zero,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Acc {
    Seek(u64),
    Read(u64, u64),
}

pub const BUDGET_MSG: &str = "VH-IO-BUDGET";

pub struct Disk {
    pub size: u64,
    chunks: HashMap<u64, Box<[u8; CH as usize]>>,
    pub pos: u64,
    pub log: Option<Vec<Acc>>,
    pub plan: HashMap<u64, Fault>,
    pub accesses: u64,
    pub budget: u64,
    pub fired: u64,
    /// Never read more than this many bytes per access (0: unlimited).
    pub max_read: usize,
}

/// Value of byte `pos` of the untouched device; never 0. Mirrored by `PatternByte` in the TLA+ specifications.
pub fn pattern(pos: u64) -> u8 {
    ((pos % 251 + 7 * ((pos / 256) % 241) + 13 * ((pos / 65536) % 239)) % 255 + 1) as u8
}

impl Disk {
    pub fn new(size: u64) -> Self {
        Disk {
            size,
            chunks: HashMap::new(),
            pos: 0,
            log: None,
            plan: HashMap::new(),
            accesses: 0,
            budget: u64::MAX,
            fired: 0,
            max_read: 0,
        }
    }

    pub fn fork(&self) -> Disk {
        Disk {
            size: self.size,
            chunks: self.chunks.clone(),
            pos: 0,
            log: None,
            plan: HashMap::new(),
            accesses: 0,
            budget: u64::MAX,
            fired: 0,
            max_read: 0,
        }
    }

    pub fn from_bytes(b: &[u8]) -> Disk {
        let mut d = Disk::new(b.len() as u64);
        d.write(0, b);
        d
    }

    fn chunk(&mut self, c: u64) -> &mut [u8; CH as usize] {
        self.chunks.entry(c).or_insert_with(|| {
            let mut b = Box::new([0u8; CH as usize]);
            for i in 0..CH {
                b[i as usize] = pattern(c.wrapping_mul(CH).wrapping_add(i));
            }
            b
        })
    }

    pub fn write(&mut self, pos: u64, data: &[u8]) {
        let mut off = 0usize;
        while off < data.len() {
            let p = pos + off as u64;
            let c = p / CH;
            let o = (p % CH) as usize;
            let n = usize::min(CH as usize - o, data.len() - off);
            self.chunk(c)[o..o + n].copy_from_slice(&data[off..off + n]);
            off += n;
        }
    }

    pub fn byte(&self, p: u64) -> u8 {
        match self.chunks.get(&(p / CH)) {
            Some(c) => c[(p % CH) as usize],
            None => pattern(p),
        }
    }

    pub fn peek(&self, pos: u64, len: usize) -> Vec<u8> {
        (0..len as u64).map(|i| self.byte(pos.wrapping_add(i))).collect()
    }

    pub fn reset_faults(&mut self) {
        self.plan.clear();
        self.accesses = 0;
        self.fired = 0;
    }

    fn tick(&mut self) -> Option<Fault> {
        let i = self.accesses;
        self.accesses += 1;
        if self.accesses > self.budget {
            panic!("{}", BUDGET_MSG);
        }
        let f = self.plan.get(&i).copied();
        if f.is_some() {
            self.fired += 1;
        }
        f
    }
}

impl Read for Disk {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let f = self.tick();
        let mut n = if self.pos >= self.size {
            0
        } else {
            u64::min(buf.len() as u64, self.size - self.pos) as usize
        };
        if self.max_read > 0 {
            n = n.min(self.max_read);
        }
        match f {
            Some(Fault::Interrupted) => {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "vh interrupted"))
            }
            Some(Fault::Fail) => return Err(io::Error::new(io::ErrorKind::Other, "vh fault")),
            Some(Fault::Short(k)) => n = n.min(k.max(1)),
            Some(Fault::Zero) => n = 0,
            None => {}
        }
        if let Some(l) = &mut self.log {
            l.push(Acc::Read(self.pos, n as u64));
        }
        let mut off = 0usize;
        while off < n {
            let p = self.pos + off as u64;
            let o = (p % CH) as usize;
            let k = usize::min(CH as usize - o, n - off);
            match self.chunks.get(&(p / CH)) {
                Some(c) => buf[off..off + k].copy_from_slice(&c[o..o + k]),
                None => {
                    for i in 0..k {
                        buf[off + i] = pattern(p + i as u64);
                    }
                }
            }
            off += k;
        }
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Disk {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        let f = self.tick();
        match f {
            Some(Fault::Interrupted) => {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "vh interrupted"))
            }
            Some(Fault::Fail) => return Err(io::Error::new(io::ErrorKind::Other, "vh fault")),
            _ => {}
        }
        let (base, off) = match pos {
            SeekFrom::Start(n) => {
                self.pos = n;
                if let Some(l) = &mut self.log {
                    l.push(Acc::Seek(n));
                }
                return Ok(n);
            }
            SeekFrom::End(n) => (self.size, n),
            SeekFrom::Current(n) => (self.pos, n),
        };
        let np = if off >= 0 {
            base.checked_add(off as u64)
        } else {
            base.checked_sub(off.unsigned_abs())
        };
        match np {
            Some(n) => {
                self.pos = n;
                if let Some(l) = &mut self.log {
                    l.push(Acc::Seek(n));
                }
                Ok(n)
            }
            None => Err(io::Error::new(io::ErrorKind::InvalidInput, "vh bad seek")),
        }
    }
}
