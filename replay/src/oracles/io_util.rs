//! Readers and writers that behave as badly as their traits allow.
use crate::gen::Gen;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::{Arc, Mutex};

pub const KINDS: [ErrorKind; 9] = [
    ErrorKind::TimedOut,
    ErrorKind::NotConnected,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::ConnectionAborted,
    ErrorKind::InvalidInput,
];

#[derive(Debug, Default)]
pub struct Seen {
    pub pos: usize,
    pub reads: usize,
    pub max_asked: usize,
}

/// Gives data in random pieces, with interruptions, and ends with an error or
/// with the end of the stream.
pub struct Source {
    pub data: Vec<u8>,
    pub end: Option<ErrorKind>,
    pub g: Gen,
    pub chunk: usize,
    pub interrupts: bool,
    pub seen: Arc<Mutex<Seen>>,
}

impl Source {
    pub fn new(g: &mut Gen, data: Vec<u8>, end: Option<ErrorKind>) -> Source {
        let chunk = *g.pick(&[1, 2, 3, 7, 64, 4096, 100000]);
        let interrupts = g.chance(20);
        let g = Gen::new(g.next(), 0);
        Source { data, end, g, chunk, interrupts, seen: Arc::new(Mutex::new(Seen::default())) }
    }
    pub fn seen(&self) -> Arc<Mutex<Seen>> {
        Arc::clone(&self.seen)
    }
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.seen.lock().unwrap();
        s.reads += 1;
        s.max_asked = s.max_asked.max(buf.len());
        if self.interrupts && self.g.chance(15) {
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        let left = self.data.len() - s.pos;
        if left == 0 {
            return match self.end {
                None => Ok(0),
                Some(k) => Err(io::Error::from(k)),
            };
        }
        let n = left.min(buf.len()).min(self.g.range(1, self.chunk));
        buf[..n].copy_from_slice(&self.data[s.pos..s.pos + n]);
        s.pos += n;
        Ok(n)
    }
}

/// Takes the bytes in random pieces and fails after some number of them.
pub struct Dest {
    pub got: Vec<u8>,
    pub fail_at: Option<(usize, ErrorKind)>,
    pub flush_fails: Option<ErrorKind>,
    pub g: Gen,
    pub chunk: usize,
    pub interrupts: bool,
    pub failed: bool,
    /// Only one write fails.
    pub once: bool,
}

impl Dest {
    pub fn new(g: &mut Gen, fail_at: Option<(usize, ErrorKind)>) -> Dest {
        let chunk = *g.pick(&[1, 2, 3, 7, 64, 4096, 10_000_000]);
        let interrupts = g.chance(20);
        let once = g.chance(40);
        let g = Gen::new(g.next(), 0);
        Dest { got: vec![], fail_at, flush_fails: None, g, chunk, interrupts, failed: false, once }
    }
}

impl Write for Dest {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.interrupts && self.g.chance(15) {
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        let mut n = buf.len().min(self.g.range(1, self.chunk));
        if let Some((at, k)) = self.fail_at {
            if !(self.once && self.failed) {
                if self.got.len() >= at {
                    self.failed = true;
                    if k == ErrorKind::WriteZero {
                        return Ok(0);
                    }
                    return Err(io::Error::from(k));
                }
                n = n.min(at - self.got.len());
            }
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        match self.flush_fails {
            None => Ok(()),
            Some(k) => Err(io::Error::from(k)),
        }
    }
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, c) in b.iter().enumerate() {
        if i > 400 {
            s.push_str(&format!("...({} bytes)", b.len()));
            break;
        }
        s.extend(std::ascii::escape_default(*c).map(|c| c as char));
    }
    s
}
