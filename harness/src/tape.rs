//! The monitored source: it delivers bytes, counts what is asked of it, and injects faults.

use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
use std::sync::Arc;

use crate::rng::Rng;

/// The mark by which an injected failure is recognised.
pub const MARK: &str = "injected failure of the source";

/// How bytes are delivered.
#[derive(Clone, Debug)]
pub enum Delivery {
    /// As many as asked for.
    Whole,
    /// One at a time.
    Single,
    /// At most a few at a time.
    Random(Rng),
    /// Random pieces, with interruptions.
    Interrupted(Rng),
    /// An interruption before every successful read.
    Alternate(bool),
    /// In pieces that end on multiples of a block, as through a buffer.
    Blocks(u64),
}

#[derive(Clone, Debug)]
pub struct Fault {
    /// The operation that fails.
    pub at: u64,
    /// Whether all the following ones fail as well.
    pub permanent: bool,
    pub kind: ErrorKind,
    pub form: Form,
}

/// What an injected failure is made of.
#[derive(Clone, Copy, Debug)]
pub enum Form {
    /// A kind and a text.
    Marked,
    /// Only a kind.
    Bare,
    /// A code of the operating system.
    System(i32),
}

impl Fault {
    fn error(&self) -> Error {
        match self.form {
            Form::Marked => Error::new(self.kind, MARK),
            Form::Bare => Error::from(self.kind),
            Form::System(code) => Error::from_raw_os_error(code),
        }
    }

    /// Whether an error is what has been injected.
    pub fn is(&self, error: &Error) -> bool {
        let kind = match self.form {
            Form::System(code) => {
                if error.raw_os_error() == Some(code) {
                    return true;
                }
                Error::from_raw_os_error(code).kind()
            }
            _ => self.kind,
        };
        error.kind() == kind || format!("{error:?} {error}").contains(MARK)
    }
}

enum Source {
    Memory(Arc<Vec<u8>>),
    File(std::fs::File),
    Buffered(std::io::BufReader<std::fs::File>),
}

pub struct Tape {
    source: Source,
    /// Where the bytes begin; before it there is nothing but a byte repeated.
    pub origin: u64,
    /// What lies between the bytes: from where after the origin, and how far.
    pub hole: Option<(u64, u64)>,
    position: u64,
    pub delivery: Delivery,
    pub fault: Option<Fault>,
    /// Whether a fault has been injected.
    pub fired: bool,
    pub reads: u64,
    pub seeks: u64,
    pub bytes: u64,
    pub interruptions: u64,
    /// The highest position asked for, plus one.
    pub high: u64,
    /// The number of operations at which the reader is cut off.
    pub limit: u64,
    pub exhausted: bool,
    /// The operations, if recorded.
    pub log: Option<Vec<u8>>,
}

impl Tape {
    pub fn new(data: Arc<Vec<u8>>) -> Tape {
        Tape::with(Source::Memory(data))
    }

    pub fn from_vec(data: Vec<u8>) -> Tape {
        Tape::new(Arc::new(data))
    }

    pub fn file(file: std::fs::File) -> Tape {
        Tape::with(Source::File(file))
    }

    pub fn buffered(file: std::fs::File, capacity: usize) -> Tape {
        Tape::with(Source::Buffered(std::io::BufReader::with_capacity(capacity, file)))
    }

    fn with(source: Source) -> Tape {
        Tape {
            source,
            origin: 0,
            hole: None,
            position: 0,
            delivery: Delivery::Whole,
            fault: None,
            fired: false,
            reads: 0,
            seeks: 0,
            bytes: 0,
            interruptions: 0,
            high: 0,
            limit: u64::MAX,
            exhausted: false,
            log: None,
        }
    }

    pub fn at(mut self, position: u64) -> Tape {
        self.position = position;
        match &mut self.source {
            Source::Memory(_) => {}
            Source::File(file) => drop(file.seek(SeekFrom::Start(position))),
            Source::Buffered(file) => drop(file.seek(SeekFrom::Start(position))),
        }
        self
    }

    pub fn ops(&self) -> u64 {
        self.reads + self.seeks
    }

    /// The position, not counted as an operation.
    pub fn whereabouts(&mut self) -> u64 {
        match &mut self.source {
            Source::Memory(_) => self.position,
            Source::File(file) => file.stream_position().unwrap_or(0),
            Source::Buffered(file) => file.stream_position().unwrap_or(0),
        }
    }

    fn enter(&mut self) -> Result<()> {
        let now = self.ops() - 1;
        if now >= self.limit {
            self.exhausted = true;
            return Err(Error::new(ErrorKind::Other, "too many operations"));
        }
        if let Some(fault) = &self.fault {
            if now == fault.at || fault.permanent && now > fault.at {
                self.fired = true;
                return Err(fault.error());
            }
        }
        Ok(())
    }
}

impl Read for Tape {
    fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
        self.reads += 1;
        if let Some(log) = &mut self.log {
            log.push(b'r');
        }
        self.enter()?;
        let mut n = buffer.len();
        if n == 0 {
            return Ok(0);
        }
        let interrupt = match &mut self.delivery {
            Delivery::Whole => false,
            Delivery::Single => {
                n = 1;
                false
            }
            Delivery::Random(rng) => {
                n = n.min(rng.range(1, 5) as usize);
                false
            }
            Delivery::Interrupted(rng) => {
                n = n.min(rng.range(1, 5) as usize);
                rng.chance(30)
            }
            Delivery::Alternate(state) => {
                *state = !*state;
                *state
            }
            Delivery::Blocks(size) => {
                n = n.min((*size - self.position % *size) as usize);
                false
            }
        };
        if interrupt {
            self.interruptions += 1;
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let n = match &mut self.source {
            Source::Memory(data) => {
                let mut n = n;
                if self.position < self.origin {
                    n = (n as u64).min(self.origin - self.position) as usize;
                    buffer[..n].fill(0xA5);
                } else {
                    let mut start = self.position - self.origin;
                    let mut end = data.len() as u64;
                    let mut missing = false;
                    if let Some((from, size)) = self.hole {
                        if start >= from + size {
                            start -= size;
                        } else if start >= from {
                            n = (n as u64).min(from + size - start) as usize;
                            buffer[..n].fill(0xA5);
                            missing = true;
                        } else {
                            end = from;
                        }
                    }
                    if !missing {
                        let start = start.min(end) as usize;
                        n = n.min(end as usize - start);
                        buffer[..n].copy_from_slice(&data[start..start + n]);
                    }
                }
                self.high = self.high.max(self.position.saturating_add(buffer.len() as u64));
                self.position += n as u64;
                n
            }
            Source::File(file) => file.read(&mut buffer[..n])?,
            Source::Buffered(file) => file.read(&mut buffer[..n])?,
        };
        self.bytes += n as u64;
        Ok(n)
    }
}

impl Seek for Tape {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.seeks += 1;
        if let Some(log) = &mut self.log {
            log.push(b's');
        }
        self.enter()?;
        match &mut self.source {
            Source::Memory(data) => {
                let base = match to {
                    SeekFrom::Start(position) => {
                        self.position = position;
                        return Ok(position);
                    }
                    SeekFrom::Current(delta) => (self.position, delta),
                    SeekFrom::End(delta) => {
                        let hole = self.hole.map_or(0, |(_, size)| size);
                        (self.origin + hole + data.len() as u64, delta)
                    }
                };
                match base.0.checked_add_signed(base.1) {
                    Some(position) => {
                        self.position = position;
                        Ok(position)
                    }
                    _ => Err(Error::new(ErrorKind::InvalidInput, "seek out of range")),
                }
            }
            Source::File(file) => file.seek(to),
            Source::Buffered(file) => file.seek(to),
        }
    }
}
