use std::io::{Read, Seek, SeekFrom, Write};

pub struct Rd(u8);
pub struct Wr(u8);

impl Read for Rd {
    fn read(&mut self, _buf: &mut [u8]) -> std::io::Result<usize> {
        loop {}
    }
}
impl Seek for Rd {
    fn seek(&mut self, _pos: SeekFrom) -> std::io::Result<u64> {
        loop {}
    }
}
impl Write for Wr {
    fn write(&mut self, _buf: &[u8]) -> std::io::Result<usize> {
        loop {}
    }
    fn flush(&mut self) -> std::io::Result<()> {
        loop {}
    }
}
impl Seek for Wr {
    fn seek(&mut self, _pos: SeekFrom) -> std::io::Result<u64> {
        loop {}
    }
}
