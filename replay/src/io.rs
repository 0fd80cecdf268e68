//! Adversarial readers and writers.
use std::io::{Error, ErrorKind, Read, Result, Write};

/// Delivers at most `k` bytes per call (k cycles), optionally with `Interrupted` in between.
pub struct Chunked<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub ks: &'a [usize],
    pub i: usize,
    pub interrupt: bool,
    pub calls: usize,
}
impl<'a> Chunked<'a> {
    pub fn new(b: &'a [u8], ks: &'a [usize], interrupt: bool) -> Self {
        Chunked { b, pos: 0, ks, i: 0, interrupt, calls: 0 }
    }
}
impl Read for Chunked<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.calls += 1;
        if self.interrupt && self.calls % 2 == 1 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let k = self.ks[self.i % self.ks.len()];
        self.i += 1;
        let n = k.min(buf.len()).min(self.b.len() - self.pos);
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// Fails with `ConnectionReset` once `at` bytes were delivered.
pub struct FailAt<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub at: usize,
    pub hit: bool,
}
impl Read for FailAt<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.pos >= self.at {
            self.hit = true;
            return Err(Error::from(ErrorKind::ConnectionReset));
        }
        let n = buf.len().min(self.at - self.pos).min(self.b.len() - self.pos);
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// Accepts at most k bytes per write call; `interrupt`: every other call is Interrupted.
pub struct ShortWriter {
    pub out: Vec<u8>,
    pub k: usize,
    pub interrupt: bool,
    pub calls: usize,
}
impl Write for ShortWriter {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.calls += 1;
        if self.interrupt && self.calls % 2 == 1 {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let n = b.len().min(self.k);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
/// Room for `cap` bytes; afterwards either write errors (`StorageFull`) or `Ok(0)`.
pub struct FullWriter {
    pub out: Vec<u8>,
    pub cap: usize,
    pub zero: bool,
    pub hit: bool,
}
impl Write for FullWriter {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let room = self.cap - self.out.len();
        if room == 0 {
            self.hit = true;
            if self.zero {
                return Ok(0);
            }
            return Err(Error::from(ErrorKind::StorageFull));
        }
        let n = b.len().min(room);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
