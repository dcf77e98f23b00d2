//! A monitored in-memory file: it records what the library does to it and can be told to
//! misbehave in every way `Read`/`Write`/`Seek` allow.
use crate::rng::Rng;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// read/write fewer bytes than asked for
    pub short: bool,
    /// return `Interrupted` now and then
    pub interrupt: bool,
    /// fail the n-th operation (reads, writes and seeks all count)
    pub fail_at: Option<u64>,
    pub fail_kind: Option<ErrorKind>,
    /// every operation after the failing one fails too
    pub sticky: bool,
    /// refuse every seek that would move the position
    pub no_seek: bool,
    /// refuse every seek, even the ones that only ask for the position
    pub no_tell: bool,
    pub seed: u64,
    /// how often a fault was injected, for when the file is lost with its owner
    pub fired: Option<Arc<AtomicU64>>,
    /// what the file held when the first fault was injected
    pub snapshot: Option<Arc<Mutex<Option<Vec<u8>>>>>,
    /// the disk is full: writes beyond this many bytes accept nothing
    pub full_at: Option<u64>,
    /// one failure, that many operations from now, as soon as this is not negative
    pub armed: Option<Arc<AtomicI64>>,
    /// most operations before the file declares the caller runaway
    pub max_ops: Option<u64>,
}

#[derive(Debug, Default, Clone, Copy)]
pub struct Counts {
    pub reads: u64,
    pub writes: u64,
    pub seeks: u64,
    pub flushes: u64,
    pub bytes_read: u64,
    pub bytes_written: u64,
    pub shorts: u64,
    pub interrupts: u64,
    pub failures: u64,
}

pub struct MonFile {
    pub data: Vec<u8>,
    pub pos: u64,
    pub plan: Plan,
    pub counts: Counts,
    pub ops: u64,
    /// lowest and highest byte written / read
    pub wrote: Option<(u64, u64)>,
    pub read: Option<(u64, u64)>,
    /// every write, as (offset, length), when asked for
    pub log_writes: Option<Vec<(u64, u64)>>,
    pub log_reads: Option<Vec<(u64, u64)>>,
    /// counts the operations of files that are lost with their owner
    pub op_count: Option<Arc<AtomicU64>>,
    rng: Rng,
}

fn widen(r: &mut Option<(u64, u64)>, a: u64, b: u64) {
    if a == b {
        return;
    }
    *r = match *r {
        None => Some((a, b)),
        Some((x, y)) => Some((x.min(a), y.max(b))),
    };
}

impl MonFile {
    pub fn new(data: Vec<u8>, pos: u64) -> Self {
        Self::with(data, pos, Plan::default())
    }
    pub fn with(data: Vec<u8>, pos: u64, plan: Plan) -> Self {
        let rng = Rng::new(plan.seed);
        MonFile {
            data,
            pos,
            plan,
            counts: Counts::default(),
            ops: 0,
            wrote: None,
            read: None,
            log_writes: None,
            log_reads: None,
            op_count: None,
            rng,
        }
    }
    fn op(&mut self, rw: bool) -> Result<()> {
        let n = self.ops;
        self.ops += 1;
        if let Some(c) = &self.op_count {
            c.fetch_add(1, Ordering::Relaxed);
        }
        if let Some(m) = self.plan.max_ops {
            if n > m {
                panic!("MONITOR: runaway I/O: more than {m} operations");
            }
        }
        if let Some(f) = self.plan.fail_at {
            if n == f || (self.plan.sticky && n > f) {
                self.failed();
                return Err(Error::new(self.plan.fail_kind.unwrap_or(ErrorKind::Other), "injected fault"));
            }
        }
        if let Some(a) = self.plan.armed.clone() {
            let left = a.load(Ordering::SeqCst);
            if left >= 0 {
                a.store(left - 1, Ordering::SeqCst);
                if left == 0 {
                    self.failed();
                    return Err(Error::new(self.plan.fail_kind.unwrap_or(ErrorKind::Other), "injected fault"));
                }
            }
        }
        if rw && self.plan.interrupt && self.rng.chance(1, 6) {
            self.counts.interrupts += 1;
            return Err(Error::new(ErrorKind::Interrupted, "injected interrupt"));
        }
        Ok(())
    }
    fn failed(&mut self) {
        self.counts.failures += 1;
        if let Some(f) = &self.plan.fired {
            f.fetch_add(1, Ordering::SeqCst);
        }
        if let Some(s) = &self.plan.snapshot {
            let mut g = s.lock().unwrap();
            if g.is_none() {
                *g = Some(self.data.clone());
            }
        }
    }
    fn len_of(&mut self, want: usize) -> usize {
        if self.plan.short && want > 1 && self.rng.chance(2, 3) {
            self.counts.shorts += 1;
            1 + self.rng.usize(want - 1)
        } else {
            want
        }
    }
}

impl Read for MonFile {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.counts.reads += 1;
        self.op(true)?;
        let at = self.pos.min(self.data.len() as u64) as usize;
        let have = self.data.len() - at;
        let n = have.min(buf.len());
        let n = if n == 0 { 0 } else { self.len_of(n) };
        buf[..n].copy_from_slice(&self.data[at..at + n]);
        widen(&mut self.read, at as u64, (at + n) as u64);
        if let Some(l) = &mut self.log_reads {
            l.push((at as u64, n as u64));
        }
        self.pos += n as u64;
        self.counts.bytes_read += n as u64;
        Ok(n)
    }
}

impl Write for MonFile {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.counts.writes += 1;
        self.op(true)?;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = self.len_of(buf.len());
        if let Some(full) = self.plan.full_at {
            let room = full.saturating_sub(self.pos);
            if (room as usize) < n {
                n = room as usize;
                if n == 0 {
                    self.failed();
                    return Ok(0);
                }
            }
        }
        // corrupt tables place the end far away: a disk would write a hole, or say EFBIG
        if self.pos > self.data.len() as u64 + (16 << 20) {
            return Err(Error::new(ErrorKind::Other, "file too large"));
        }
        let at = self.pos as usize;
        if self.data.len() < at + n {
            self.data.resize(at + n, 0);
        }
        self.data[at..at + n].copy_from_slice(&buf[..n]);
        widen(&mut self.wrote, at as u64, (at + n) as u64);
        if let Some(l) = &mut self.log_writes {
            l.push((at as u64, n as u64));
        }
        self.pos += n as u64;
        self.counts.bytes_written += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        self.counts.flushes += 1;
        Ok(())
    }
}

impl Seek for MonFile {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.counts.seeks += 1;
        self.op(false)?;
        let new = match to {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if new < 0 || new > u64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek out of range"));
        }
        if self.plan.no_tell || (self.plan.no_seek && new as u64 != self.pos) {
            return Err(Error::new(ErrorKind::Other, "not seekable"));
        }
        self.pos = new as u64;
        Ok(self.pos)
    }
}
