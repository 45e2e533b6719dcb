//! Readers and writers that do what the traits allow: hand over less than was
//! asked for, get interrupted, fail.
use crate::gen::*;
use crate::kdbx::{self, Params};
use crate::model::*;
use crate::sym;
use kpdb::*;
use secstr::SecStr;
use std::io::{self, ErrorKind, Read, Write};

const KINDS: [ErrorKind; 8] = [
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::UnexpectedEof,
    ErrorKind::Other,
];
#[derive(Clone, Copy, PartialEq)]
enum At {
    Nothing,
    Interrupt,
    Fail(ErrorKind),
    Zero,
}
/// A stream of bytes. No call crosses one of the `stops` (ascending); what `at` says happens
/// at the first of them; no call moves more than `cap` bytes.
struct Shy {
    data: Vec<u8>,
    pos: usize,
    stops: Vec<usize>,
    at: At,
    every: bool,
    cap: usize,
    calls: usize,
    fired: bool,
}
impl Shy {
    fn new(data: Vec<u8>) -> Shy {
        Shy { data, pos: 0, stops: vec![], at: At::Nothing, every: false, cap: usize::MAX, calls: 0, fired: false }
    }
    /// How many of `want` bytes to move now.
    fn step(&mut self, want: usize) -> io::Result<usize> {
        self.calls += 1;
        if self.every && self.calls % 2 == 1 {
            return Err(ErrorKind::Interrupted.into());
        }
        if want > 0 && self.stops.first() == Some(&self.pos) {
            match self.at {
                At::Nothing => {}
                At::Interrupt if self.fired => {}
                At::Interrupt => {
                    self.fired = true;
                    return Err(ErrorKind::Interrupted.into());
                }
                At::Fail(k) => {
                    self.fired = true;
                    return Err(io::Error::new(k, "told to"));
                }
                At::Zero => {
                    self.fired = true;
                    return Ok(0);
                }
            }
        }
        let mut n = want.min(self.cap);
        for s in &self.stops {
            if *s > self.pos {
                n = n.min(*s - self.pos);
                break;
            }
        }
        Ok(n)
    }
}
impl Read for Shy {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.step(buf.len())?.min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Shy {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.step(buf.len())?;
        self.data.extend_from_slice(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const XML: &[u8] = b"<KeePassFile><Meta><DatabaseName>tiny</DatabaseName></Meta></KeePassFile>";
/// A file of about 500 bytes with a comment and two blocks.
fn file() -> (Vec<u8>, usize) {
    let mut p = Params::new();
    p.comment = Some(b"a comment".to_vec());
    let mut x = XML.to_vec();
    let at = x.iter().position(|b| *b == b'y').unwrap();
    x[at] = plain(1, "name").as_bytes()[0];
    let h = p.header();
    let n = h.len();
    let (a, b) = x.split_at(40);
    (p.seal(&h, &kdbx::password_key(PW.as_bytes()), &kdbx::cat(&[&p.start, &kdbx::blocks(&[a, b])])), n)
}
/// What an undisturbed reader yields.
fn opens(r: Result<Database>, whole: Database) {
    match r {
        Ok(d) => {
            sym::check(d.name == whole.name && d.comment == whole.comment, "the same content arrives");
            sym::check(d.version == whole.version && d.transform_rounds == whole.transform_rounds, "the same header arrives");
        }
        Err(_) => sym::check(false, "the file opens through any reader"),
    }
}
fn read(s: &mut Shy) -> Result<Database> {
    Database::open(s, &key())
}
/// No two reads together: any one place at which the data is split (and a second one in the header).
pub fn h_io_read_short() {
    let (f, n) = file();
    let whole = open(f.clone());
    let mut s = Shy::new(f.clone());
    let a = sym::pick(if sym::tier() > 0 { f.len() as u32 } else { n as u32 + 40 }, "split");
    s.stops.push(a);
    if sym::flag("second") {
        let step = if sym::tier() > 0 { 5 } else { 31 };
        let k = sym::pick(((f.len() - a) / step + 1) as u32, "second-split");
        s.stops.push(a + 1 + k * step);
    }
    let r = read(&mut s);
    opens(r, whole);
    sym::reach(1);
}
/// No read yields more than a certain number of bytes.
pub fn h_io_read_cap() {
    let (f, _) = file();
    let whole = open(f.clone());
    let mut s = Shy::new(f);
    s.cap = [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 64, 100, 255][sym::pick(23, "cap")];
    s.every = sym::flag("interrupted");
    let r = read(&mut s);
    opens(r, whole);
    sym::reach(1);
}
/// A saved database, with all it can contain, read in pieces.
pub fn h_io_read_saved() {
    let mut d = db();
    d.name = plain(2, "name");
    d.root_group.entries.push(full_entry(1));
    d.root_group.groups.push(full_group(2));
    if sym::flag("compressed") {
        d.name = "name".into();
        d.compression = Compression::GZip;
    }
    let f = save(&d);
    let mut s = Shy::new(f.clone());
    if sym::flag("capped") {
        s.cap = [1usize, 7, 16, 61, 1000, 4095, 4096, 4097][sym::pick(8, "cap")];
    } else {
        s.stops.push(1 + (f.len() - 2) * sym::pick(16, "split") / 15);
    }
    s.every = sym::flag("interrupted");
    let r = read(&mut s);
    match r {
        Ok(e) => same_db(&d, &e),
        Err(_) => sym::check(false, "the file opens through any reader"),
    }
    sym::reach(1);
}
/// Interrupted at any one place.
pub fn h_io_read_interrupt() {
    let (f, n) = file();
    let whole = open(f.clone());
    let mut s = Shy::new(f.clone());
    s.at = At::Interrupt;
    s.stops.push(sym::pick(if sym::tier() > 0 { f.len() as u32 + 1 } else { n as u32 + 40 }, "where"));
    let r = read(&mut s);
    opens(r, whole);
    sym::reach(1);
}
/// An error of any kind at any place is what open reports.
pub fn h_io_read_error() {
    let (f, n) = file();
    let mut s = Shy::new(f.clone());
    let all = sym::tier() > 0 || sym::flag("all-kinds");
    let k = KINDS[sym::pick(if all { KINDS.len() as u32 } else { 3 }, "kind")];
    s.at = At::Fail(k);
    let len = f.len();
    s.stops.push(if sym::tier() > 0 {
        sym::pick(len as u32 + 1, "where")
    } else if all {
        [0, 3, 4, 8, 12, 13, 15, 20, n - 1, n, n + 1, n + 100, len - 16, len - 1, len][sym::pick(15, "where")]
    } else {
        sym::pick(n as u32 + 3, "where")
    });
    match read(&mut s) {
        Ok(_) => sym::check(false, "an error of the reader is not ignored"),
        Err(Error::Io(e)) => {
            sym::check(e.kind() == k, "the kind of the error");
            sym::check(e.to_string() == "told to", "the error itself");
        }
        Err(_) => sym::check(false, "an error of the reader is reported as such"),
    }
    sym::check(s.fired, "the reader failed");
    sym::reach(1);
}
fn key_file() -> (KeyFile, Vec<u8>) {
    let k = KeyFile {
        key: SecStr::new(kdbx::cat(&[&[7u8; 30], &sym::arr::<2>("key")])),
        file_type: match sym::pick(3, "type") {
            0 => KeyFileType::Binary,
            1 => KeyFileType::Hex,
            _ => KeyFileType::Xml,
        },
    };
    let u = k.key.unsecure().to_vec();
    no_slash(&u);
    let mut f = vec![];
    sym::check(k.save(&mut f).is_ok(), "a key file is saved");
    (k, f)
}
/// Key files through readers like these.
pub fn h_io_read_key() {
    let (k, f) = key_file();
    let mut s = Shy::new(f.clone());
    match sym::pick(3, "how") {
        0 => s.cap = [1usize, 2, 3, 7, 16, 31, 32, 33, 63][sym::pick(9, "cap")],
        1 => s.stops.push(sym::pick(f.len() as u32, "split")),
        _ => {
            s.stops.push(sym::pick(f.len() as u32 + 1, "split"));
            s.at = At::Interrupt;
        }
    }
    match KeyFile::open(&mut s) {
        Ok(o) => sym::check(o.key.unsecure() == k.key.unsecure() && o.file_type == k.file_type, "the same key arrives"),
        Err(_) => sym::check(false, "a key file opens through any reader"),
    }
    sym::reach(1);
}
pub fn h_io_read_key_error() {
    let (_, f) = key_file();
    let mut s = Shy::new(f.clone());
    let kind = KINDS[sym::pick(KINDS.len() as u32, "kind")];
    s.at = At::Fail(kind);
    s.stops.push(sym::pick(f.len() as u32 + 1, "where"));
    match KeyFile::open(&mut s) {
        Ok(_) => sym::check(false, "an error of the reader is not ignored"),
        Err(Error::Io(e)) => sym::check(e.kind() == kind, "the kind of the error"),
        Err(_) => sym::check(false, "an error of the reader is reported as such"),
    }
    sym::check(s.fired, "the reader failed");
    sym::reach(1);
}

fn small() -> Database {
    let mut d = db();
    d.name = plain(1, "name");
    d.comment = Some(Comment(b"a comment".to_vec()));
    d
}
const HEADER: u32 = 12 + 12 + 19 + 7 + 35 + 35 + 11 + 19 + 35 + 35 + 7 + 7;
fn written(d: &Database, s: Shy, r: Result<()>) {
    match r {
        Ok(()) => {
            let e = open(s.data);
            same_db(d, &e);
        }
        Err(_) => sym::check(false, "a database can be saved to any writer"),
    }
}
/// No write crosses any one place (and a second one).
pub fn h_io_write_short() {
    let d = small();
    let mut s = Shy::new(vec![]);
    let a = if sym::tier() > 0 { sym::pick(HEADER + 160, "split") } else { 2 * sym::pick((HEADER + 60) / 2, "split") + 1 };
    s.stops.push(a);
    if sym::flag("second") {
        s.stops.push(a + [1usize, 5, 16, 200][sym::pick(4, "second-split")]);
    }
    let r = d.save(&mut s);
    written(&d, s, r);
    sym::reach(1);
}
pub fn h_io_write_cap() {
    let mut d = small();
    d.root_group.entries.push(full_entry(1));
    if sym::flag("compressed") {
        d.name = "name".into();
        d.compression = Compression::GZip;
    }
    let mut s = Shy::new(vec![]);
    s.cap = [1usize, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 100, 1000, 4096][sym::pick(16, "cap")];
    s.every = sym::flag("interrupted");
    let r = d.save(&mut s);
    written(&d, s, r);
    sym::reach(1);
}
pub fn h_io_write_interrupt() {
    let d = small();
    let mut s = Shy::new(vec![]);
    s.at = At::Interrupt;
    s.stops.push(if sym::tier() > 0 { sym::pick(HEADER + 20, "where") } else { 3 * sym::pick((HEADER + 20) / 3, "where") });
    let r = d.save(&mut s);
    written(&d, s, r);
    sym::reach(1);
}
/// An error at any place is reported, and what was written before it is not more than the file.
pub fn h_io_write_error() {
    let d = small();
    let n = save(&d).len();
    let mut s = Shy::new(vec![]);
    let all = sym::tier() > 0 || sym::flag("all-kinds");
    let k = sym::pick(if all { KINDS.len() as u32 + 1 } else { 3 }, "kind");
    let kind = if k == 0 { ErrorKind::WriteZero } else { KINDS[k - 1] };
    s.at = if k == 0 { At::Zero } else { At::Fail(kind) };
    let at = if sym::tier() > 0 {
        let w = sym::pick(HEADER + 40, "where");
        if w < HEADER as usize + 20 { w } else { n - 20 + (w - HEADER as usize - 20) }
    } else if all {
        [0, 1, 4, 8, 12, 13, 30, HEADER as usize - 1, HEADER as usize, HEADER as usize + 1, n / 2, n - 16, n - 1][sym::pick(13, "where")]
    } else {
        let w = sym::pick(HEADER / 2 + 4, "where");
        if w < HEADER as usize / 2 + 2 { 2 * w } else { [n - 1, n - 16][w - HEADER as usize / 2 - 2] }
    };
    s.stops.push(at);
    match d.save(&mut s) {
        Ok(()) => sym::check(false, "an error of the writer is not ignored"),
        Err(Error::Io(e)) => sym::check(e.kind() == kind, "the kind of the error"),
        Err(_) => sym::check(false, "an error of the writer is reported as such"),
    }
    sym::check(s.fired && s.data.len() == at, "nothing is written after the error");
    sym::reach(1);
}
pub fn h_io_write_key() {
    let (k, f) = key_file();
    let mut s = Shy::new(vec![]);
    let how = sym::pick(5, "how");
    match how {
        0 => s.cap = [1usize, 2, 3, 7, 16, 31, 33, 63][sym::pick(8, "cap")],
        1 => s.stops.push(sym::pick(f.len() as u32, "split")),
        _ => {
            s.stops.push(sym::pick(f.len() as u32, "split"));
            s.at = match how {
                2 => At::Interrupt,
                3 => At::Zero,
                _ => At::Fail(ErrorKind::PermissionDenied),
            }
        }
    }
    let r = k.save(&mut s);
    sym::check(r.is_err() == (how >= 3), "the error is reported, and no other");
    if r.is_ok() {
        sym::check(s.data == f, "the same bytes are written");
    }
    sym::reach(1);
}
