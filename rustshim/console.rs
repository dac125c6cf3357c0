//! Stand-in for the part of console that the extension uses: writes nothing.
use std::io;
#[derive(Clone, Debug)] pub struct Term;
impl Term {
    pub fn buffered_stdout() -> Term { Term }
    pub fn stdout() -> Term { Term }
    pub fn buffered_stderr() -> Term { Term }
    pub fn stderr() -> Term { Term }
    pub fn move_cursor_to(&self, _x: usize, _y: usize) -> io::Result<()> { Ok(()) }
    pub fn clear_screen(&self) -> io::Result<()> { Ok(()) }
    pub fn clear_line(&self) -> io::Result<()> { Ok(()) }
    pub fn write_line(&self, _s: &str) -> io::Result<()> { Ok(()) }
    pub fn flush(&self) -> io::Result<()> { Ok(()) }
    pub fn size(&self) -> (u16, u16) { (24, 80) }
}
