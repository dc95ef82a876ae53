//! A simulated disk for snapshots: writers and readers that fail the way real storage does.

use std::io::{Error, ErrorKind, Read, Result, Write};

/// 0 sound, 1 error after `at` bytes, 2 disk full (writes nothing more) after `at` bytes,
/// 3 interrupted calls, 4 short writes, 5 the process dies after `at` bytes (an error, then nothing
/// is kept that was not flushed).
pub struct FaultyWriter<'a> {
    pub out: &'a mut Vec<u8>,
    pub fault: u8,
    pub at: usize,
    pub n: u64,
    pub fired: bool,
}

impl<'a> Write for FaultyWriter<'a> {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.n += 1;
        let mut k = b.len();
        match self.fault {
            1 | 2 | 5 => {
                let room = self.at.saturating_sub(self.out.len());
                if room == 0 && k > 0 {
                    self.fired = true;
                    return match self.fault {
                        2 => Ok(0),
                        1 => Err(Error::new(ErrorKind::Other, "simulated write error")),
                        _ => Err(Error::new(ErrorKind::BrokenPipe, "simulated crash")),
                    };
                }
                k = k.min(room);
            }
            3 => {
                if self.n % 3 == self.at as u64 % 3 {
                    self.fired = true;
                    return Err(Error::new(ErrorKind::Interrupted, "simulated interruption"));
                }
            }
            4 => {
                let m = 1 + (self.n as usize * 7 + self.at) % 5;
                if k > m {
                    self.fired = true;
                    k = m;
                }
            }
            _ => {}
        }
        self.out.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

/// 0 sound, 1 ends after `at` bytes, 2 error after `at` bytes, 3 interrupted calls, 4 short reads.
pub struct FaultyReader<'a> {
    pub src: &'a [u8],
    pub pos: usize,
    pub fault: u8,
    pub at: usize,
    pub n: u64,
    pub fired: bool,
}

impl<'a> Read for FaultyReader<'a> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.n += 1;
        let mut k = b.len().min(self.src.len() - self.pos);
        match self.fault {
            1 | 2 => {
                let left = self.at.saturating_sub(self.pos);
                if left == 0 && !b.is_empty() {
                    self.fired = true;
                    return if self.fault == 1 { Ok(0) } else { Err(Error::new(ErrorKind::Other, "simulated read error")) };
                }
                k = k.min(left);
            }
            3 => {
                if self.n % 3 == self.at as u64 % 3 {
                    self.fired = true;
                    return Err(Error::new(ErrorKind::Interrupted, "simulated interruption"));
                }
            }
            4 => {
                let m = 1 + (self.n as usize * 7 + self.at) % 5;
                if k > m {
                    self.fired = true;
                    k = m;
                }
            }
            _ => {}
        }
        b[..k].copy_from_slice(&self.src[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}
