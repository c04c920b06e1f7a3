//! Simulated byte stream: short reads, interruptions, errors and end of file at chosen offsets.

use serde::{Deserialize, Serialize};
use std::io::{Error, ErrorKind, Read};

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::Unsupported,
    ErrorKind::StorageFull,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::Other,
];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Chunk {
    /// Bytes delivered at most by this read call (0 is treated as 1).
    pub n: u32,
    /// Interruptions before it.
    pub eintr: u32,
}

#[derive(Clone, Debug, Default)]
pub struct SimStream {
    pub data: Vec<u8>,
    pub pos: usize,
    /// Cycled; empty: everything asked for.
    pub chunks: Vec<Chunk>,
    pub call: usize,
    pub pending: Option<u32>,
    /// At this offset every read fails with the kind.
    pub fail_at: Option<(usize, ErrorKind)>,
    /// The failure happens this many times, then the stream recovers.
    pub fail_times: u32,
    pub short: u64,
    pub eintr: u64,
    pub failed: u64,
    pub eof: u64,
}

impl SimStream {
    pub fn new(data: Vec<u8>, chunks: Vec<Chunk>) -> SimStream {
        SimStream { data, chunks, fail_times: u32::MAX, ..SimStream::default() }
    }
}

impl Read for SimStream {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let (lim, ei) = if self.chunks.is_empty() {
            (usize::MAX, 0)
        } else {
            let c = &self.chunks[self.call % self.chunks.len()];
            (c.n.max(1) as usize, c.eintr)
        };
        let left = self.pending.unwrap_or(ei);
        if left > 0 {
            self.pending = Some(left - 1);
            self.eintr += 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        self.pending = None;
        self.call += 1;
        let mut n = buf.len().min(lim);
        if let Some((at, kind)) = self.fail_at {
            if self.pos >= at && self.fail_times > 0 {
                self.fail_times -= 1;
                self.failed += 1;
                return Err(Error::from(kind));
            }
            if self.fail_times > 0 {
                n = n.min(at - self.pos);
            }
        }
        n = n.min(self.data.len() - self.pos);
        if n < buf.len() {
            self.short += 1;
        }
        if n == 0 {
            self.eof += 1;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
