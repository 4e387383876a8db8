//! Simulated readers and writers: every transfer is a decision of the fault script.
use crate::rng::Rng;
use std::cell::RefCell;
use std::io::{self, Error, ErrorKind, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

/// one fault script
#[derive(Clone, Debug, Default)]
pub struct Io {
    pub seed: u64,
    /// percent of transfers cut short
    pub short: i64,
    /// percent of calls interrupted
    pub intr: i64,
    /// first byte offset that cannot be transferred (-1: none)
    pub fail: i64,
    /// what happens there: index into KINDS (last: Ok(0))
    pub kind: i64,
    /// writer: buffer size of a buffering sink, -1 unbuffered.  reader: chunk granularity
    pub buf: i64,
    /// reader: fail the n-th seek (1-based), 0 none
    pub seekfail: i64,
    /// the error happens once only; later calls succeed
    pub once: i64,
}
const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::StorageFull,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::UnexpectedEof,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
];
pub const NKINDS: i64 = 9;

#[derive(Default, Clone, Debug)]
pub struct Fired {
    pub short: u64,
    pub intr: u64,
    pub hard: u64,
    pub zero: u64,
    pub seek: u64,
    pub ops: u64,
}
/// signals come alone or, under some seeds, in long storms
fn interrupted(io: &Io, rng: &mut Rng, consecutive: u32) -> bool {
    if io.intr <= 0 {
        return false;
    }
    let storm = io.seed % 6 == 0;
    if storm && consecutive > 0 {
        return consecutive < 300 && rng.below(100) < 96;
    }
    consecutive < 5 && rng.below(100) < io.intr as u64
}

#[derive(Default)]
pub struct SinkState {
    /// what reached the medium
    pub delivered: Vec<u8>,
    pub pending: Vec<u8>,
    pub fired: Fired,
    pub flushes: u64,
}
pub struct Sink {
    io: Io,
    rng: Rng,
    st: Rc<RefCell<SinkState>>,
    consecutive_intr: u32,
    failed_once: bool,
}
impl Sink {
    pub fn new(io: &Io) -> (Sink, Rc<RefCell<SinkState>>) {
        let st = Rc::new(RefCell::new(SinkState::default()));
        (
            Sink { io: io.clone(), rng: Rng::new(io.seed ^ 0x51), st: st.clone(), consecutive_intr: 0, failed_once: false },
            st,
        )
    }
    fn medium_write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut st = self.st.borrow_mut();
        let have = st.delivered.len() as i64;
        let mut n = buf.len();
        let armed = self.io.fail >= 0 && !(self.io.once != 0 && self.failed_once);
        if armed {
            let room = (self.io.fail - have).max(0) as usize;
            if room == 0 && n > 0 {
                self.failed_once = true;
                st.fired.hard += 1;
                return match KINDS.get(self.io.kind as usize) {
                    Some(k) => Err(Error::new(*k, "simulated")),
                    None => {
                        st.fired.zero += 1;
                        Ok(0)
                    }
                };
            }
            n = n.min(room);
        }
        if n > 1 && self.rng.below(100) < self.io.short as u64 {
            n = 1 + self.rng.below(n as u64 - 1) as usize;
            st.fired.short += 1;
        }
        st.delivered.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn push_pending(&mut self) -> io::Result<()> {
        loop {
            let p = std::mem::take(&mut self.st.borrow_mut().pending);
            if p.is_empty() {
                return Ok(());
            }
            let r = self.medium_write(&p);
            match r {
                Ok(n) => {
                    let rest = p[n..].to_vec();
                    self.st.borrow_mut().pending = rest;
                    if n == 0 {
                        return Err(Error::new(ErrorKind::WriteZero, "simulated"));
                    }
                }
                Err(e) => {
                    self.st.borrow_mut().pending = p;
                    return Err(e);
                }
            }
        }
    }
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        seams::sched::point();
        self.st.borrow_mut().fired.ops += 1;
        if interrupted(&self.io, &mut self.rng, self.consecutive_intr) {
            self.consecutive_intr += 1;
            self.st.borrow_mut().fired.intr += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        self.consecutive_intr = 0;
        if self.io.buf >= 0 {
            if self.st.borrow().pending.len() as i64 > self.io.buf {
                self.push_pending()?;
            }
            let mut n = buf.len();
            if n > 1 && self.rng.below(100) < self.io.short as u64 {
                n = 1 + self.rng.below(n as u64 - 1) as usize;
                self.st.borrow_mut().fired.short += 1;
            }
            self.st.borrow_mut().pending.extend_from_slice(&buf[..n]);
            return Ok(n);
        }
        self.medium_write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.st.borrow_mut().flushes += 1;
        self.push_pending()
    }
}
impl Drop for Sink {
    fn drop(&mut self) {
        // as BufWriter does: best effort, errors swallowed
        let _ = self.push_pending();
    }
}

#[derive(Default)]
pub struct SourceState {
    pub fired: Fired,
    pub pos: u64,
}
pub struct Source<'a> {
    io: Io,
    rng: Rng,
    data: &'a [u8],
    st: Rc<RefCell<SourceState>>,
    consecutive_intr: u32,
    failed_once: bool,
    seeks: i64,
}
impl<'a> Source<'a> {
    pub fn new(data: &'a [u8], io: &Io) -> (Source<'a>, Rc<RefCell<SourceState>>) {
        let st = Rc::new(RefCell::new(SourceState::default()));
        (
            Source { io: io.clone(), rng: Rng::new(io.seed ^ 0x52), data, st: st.clone(), consecutive_intr: 0, failed_once: false, seeks: 0 },
            st,
        )
    }
}
impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        seams::sched::point();
        let mut st = self.st.borrow_mut();
        st.fired.ops += 1;
        if interrupted(&self.io, &mut self.rng, self.consecutive_intr) {
            self.consecutive_intr += 1;
            st.fired.intr += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        self.consecutive_intr = 0;
        let pos = st.pos.min(self.data.len() as u64) as usize;
        let mut n = buf.len().min(self.data.len() - pos);
        let armed = self.io.fail >= 0 && !(self.io.once != 0 && self.failed_once);
        if armed && !buf.is_empty() {
            let room = (self.io.fail - pos as i64).max(0) as usize;
            if room == 0 {
                self.failed_once = true;
                st.fired.hard += 1;
                return Err(Error::new(*KINDS.get(self.io.kind as usize).unwrap_or(&ErrorKind::Other), "simulated"));
            }
            n = n.min(room);
        }
        if n > 1 && self.rng.below(100) < self.io.short as u64 {
            n = 1 + self.rng.below(n as u64 - 1) as usize;
            st.fired.short += 1;
        }
        if self.io.buf > 0 {
            n = n.min(self.io.buf as usize);
        }
        buf[..n].copy_from_slice(&self.data[pos..pos + n]);
        st.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Source<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.seeks += 1;
        let mut st = self.st.borrow_mut();
        if self.io.seekfail > 0 && self.seeks == self.io.seekfail {
            st.fired.hard += 1;
            st.fired.seek += 1;
            return Err(Error::new(ErrorKind::Other, "simulated seek"));
        }
        let n = match p {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::Current(d) => st.pos as i64 + d,
            SeekFrom::End(d) => self.data.len() as i64 + d,
        };
        if n < 0 {
            return Err(ErrorKind::InvalidInput.into());
        }
        st.pos = n as u64;
        Ok(n as u64)
    }
}
