//! Building blocks of the harnesses: symbolic leaf values and the round trip.
use crate::sym;
use chrono::{DateTime, TimeZone, Utc};
use kpdb::*;
use std::io::Cursor;
use uuid::Uuid;

pub const PW: &str = "test";
pub fn key() -> CompositeKey {
    CompositeKey::from_password(PW)
}
/// A new database whose content is stored uncompressed (so that it can stay symbolic).
pub fn db() -> Database {
    let mut d = Database::new(&key());
    d.compression = Compression::None;
    d.transform_rounds = TransformRounds(1);
    d
}
pub fn save(d: &Database) -> Vec<u8> {
    let mut out = Vec::new();
    let r = d.save(&mut out);
    sym::check(r.is_ok(), "saving succeeds");
    out
}
pub fn try_open(f: Vec<u8>) -> Result<Database> {
    Database::open(&mut Cursor::new(f), &key())
}
pub fn open(f: Vec<u8>) -> Database {
    match try_open(f) {
        Ok(d) => d,
        Err(_) => {
            sym::check(false, "a saved database opens with its key");
            unreachable!()
        }
    }
}
pub fn round(d: &Database) -> Database {
    open(save(d))
}
/// The links to the parent group are not stored; opening a file sets them.
pub fn link(g: &mut Group) {
    let u = g.uuid;
    for e in g.entries.iter_mut() {
        e.parent = u;
    }
    for s in g.groups.iter_mut() {
        s.parent = u;
        link(s);
    }
}
pub fn unlink(g: &mut Group) {
    g.parent = GroupUuid::nil();
    for e in g.entries.iter_mut() {
        unlink_entry(e);
    }
    for s in g.groups.iter_mut() {
        unlink(s);
    }
}
pub fn unlink_entry(e: &mut Entry) {
    e.parent = GroupUuid::nil();
    for h in e.history.iter_mut() {
        unlink_entry(h);
    }
}

/// `n` arbitrary lower-case letters (no byte of it is special anywhere).
pub fn plain(n: usize, name: &str) -> String {
    let b = sym::bytes(n, name);
    for c in &b {
        sym::assume((*c >= b'a') & (*c <= b'z'));
    }
    String::from_utf8(b).unwrap()
}
/// Arbitrary characters that appear neither in XML markup nor in base64: [ \ ] ^
pub fn exotic(n: usize, name: &str) -> Vec<u8> {
    let b = sym::bytes(n, name);
    for c in &b {
        sym::assume((*c >= 0x5b) & (*c <= 0x5e));
    }
    b
}
/// Any text of `n` bytes of UTF-8.
pub fn utf8(n: usize, name: &str) -> String {
    let b = sym::bytes(n, name);
    match String::from_utf8(b) {
        Ok(s) => s,
        Err(_) => {
            sym::assume(false);
            unreachable!()
        }
    }
}
/// Any text of `n` bytes of UTF-8 that XML 1.0 can carry (the format cannot
/// represent other characters at all).
pub fn text(n: usize, name: &str) -> String {
    let b = sym::bytes(n, name);
    for c in &b {
        sym::assume((*c >= 32) | (*c == 9) | (*c == 10) | (*c == 13));
    }
    let s = match String::from_utf8(b) {
        Ok(s) => s,
        Err(_) => {
            sym::assume(false);
            unreachable!()
        }
    };
    if n >= 3 {
        let b = s.as_bytes();
        for i in 0..n - 2 {
            sym::assume(!((b[i] == 0xef) & (b[i + 1] == 0xbf) & (b[i + 2] >= 0xbe)));
        }
    }
    s
}
/// Sixteen arbitrary bytes whose base64 has no '/': one path.
pub fn uuid16(name: &str) -> Uuid {
    let b = sym::arr::<16>(name);
    no_slash(&b);
    Uuid::from_bytes(b)
}
/// The file's header hash (a free 32-byte value when the header is symbolic)
/// contains no base64 '/'.
pub fn focus_header(f: &[u8]) {
    let mut at = 12;
    loop {
        let n = u16::from_le_bytes([f[at + 1], f[at + 2]]) as usize;
        let id = f[at];
        at += 3 + n;
        if id == 0 {
            break;
        }
    }
    let h = sym::sha256(&f[..at]);
    for c in h.chunks(3) {
        let w = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
        sym::focus(w[0] >> 2 != 63);
        sym::focus((w[0] & 3) << 4 | w[1] >> 4 != 63);
        sym::focus((w[1] & 15) << 2 | w[2] >> 6 != 63);
        sym::focus(w[2] & 63 != 63);
    }
}
/// No base64 digit of these bytes is '/' (on which the XML lexer branches).
pub fn no_slash(b: &[u8]) {
    for c in b.chunks(3) {
        let w = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
        sym::assume(w[0] >> 2 != 63);
        sym::assume((w[0] & 3) << 4 | w[1] >> 4 != 63);
        sym::assume((w[1] & 15) << 2 | w[2] >> 6 != 63);
        sym::assume(w[2] & 63 != 63);
    }
}
/// A UUID of which three neighbouring bytes are entirely arbitrary.
pub fn uuid3(name: &str) -> Uuid {
    let k = sym::pick(if sym::tier() > 0 { 14 } else { 3 }, "uuid-window");
    let at = if sym::tier() > 0 { k } else { [0, 6, 13][k] };
    let mut b = *b"\x10\x21\x32\x43\x54\x65\x46\x87\x98\xa9\xba\xcb\xdc\xed\xfe\x0f";
    b[at..at + 3].copy_from_slice(&sym::arr::<3>(name));
    Uuid::from_bytes(b)
}
/// A concrete UUID per number.
pub fn uu(n: u8) -> Uuid {
    let mut b = *b"\x10\x21\x32\x43\x54\x65\x46\x87\x98\xa9\xba\xcb\xdc\xed\xfe\x0f";
    b[0] = n;
    b[15] = n ^ 0x5a;
    Uuid::from_bytes(b)
}
pub fn at(secs: i64) -> DateTime<Utc> {
    Utc.timestamp_opt(secs, 0).unwrap()
}
/// Any second of one of several days (leap days, year ends, ancient and late ones).
pub fn time(name: &str) -> DateTime<Utc> {
    const DAYS: [(i32, u32, u32); 12] = [
        (1970, 1, 1),
        (1969, 12, 31),
        (2000, 2, 29),
        (2018, 1, 1),
        (2020, 12, 31),
        (1900, 2, 28),
        (9999, 12, 31),
        (1, 1, 1),
        (987, 6, 5),
        (2038, 1, 19),
        (2024, 10, 9),
        (1600, 3, 1),
    ];
    let (y, m, d) = DAYS[sym::pick(DAYS.len() as u32, "day")];
    secs(y, m, d, name)
}
fn secs(y: i32, m: u32, d: u32, name: &str) -> DateTime<Utc> {
    if sym::tier() > 0 {
        // through the arithmetic of timestamps
        let t = sym::u32v(name);
        sym::assume(t < 86400);
        let day = Utc.with_ymd_and_hms(y, m, d, 0, 0, 0).unwrap().timestamp();
        return at(day + t as i64);
    }
    let b = sym::arr::<3>(name);
    sym::assume((b[0] < 24) & (b[1] < 60) & (b[2] < 60));
    match Utc.with_ymd_and_hms(y, m, d, b[0] as u32, b[1] as u32, b[2] as u32) {
        chrono::LocalResult::Single(t) => t,
        _ => {
            sym::check(false, "time of day");
            unreachable!()
        }
    }
}
/// Any second of 2009-02-13.
pub fn tod(name: &str) -> DateTime<Utc> {
    secs(2009, 2, 13, name)
}
/// A distinct concrete time per number.
pub fn tm(n: i64) -> DateTime<Utc> {
    at(1_000_000_000 + n * 100_003)
}
/// Any number of the given magnitude class, and the special ones.
pub fn num(name: &str) -> i32 {
    const EDGE: [i32; 12] =
        [i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 65536, 99999, 100000, 1000000000, -1000000000, 999999999, -65536, 16777216];
    match sym::pick(2 + EDGE.len() as u32, "num") {
        0 => {
            let b = sym::arr::<2>(name);
            u16::from_le_bytes(b) as i32
        }
        1 => {
            let b = sym::arr::<2>(name);
            -(u16::from_le_bytes(b) as i32)
        }
        k => EDGE[k - 2],
    }
}
/// Any three-digit number (no branching on the digit count).
pub fn num3(name: &str) -> i32 {
    let b = sym::arr::<2>(name);
    let n = u16::from_le_bytes(b);
    sym::assume((n >= 100) & (n < 1000));
    n as i32
}
pub fn color(name: &str) -> Color {
    let b = sym::arr::<3>(name);
    Color { red: b[0], green: b[1], blue: b[2] }
}
