//! What is not a readable, unmodified database of this key is refused with
//! the right error; nothing makes the crate panic.
use crate::conform::iso;
use crate::doc::Style;
use crate::gen::*;
use crate::kdbx::{self, Params};
use crate::model::*;
use crate::sym;
use kpdb::*;
use secstr::SecStr;
use std::io::Cursor;

fn key32() -> [u8; 32] {
    kdbx::password_key(PW.as_bytes())
}
fn tiny() -> Database {
    let mut d = db();
    d.name = "tiny".into();
    d
}
/// A minimal document.
const XML: &[u8] = b"<KeePassFile><Meta><DatabaseName>tiny</DatabaseName></Meta></KeePassFile>";
fn is_ok(r: &Result<Database>) -> bool {
    match r {
        Ok(d) => d.name == "tiny",
        Err(_) => false,
    }
}
fn expect(ok: bool, what: &str) {
    sym::check(ok, what);
}

pub fn h_err_signature() {
    let p = Params::new();
    let mut f = p.file(&key32(), XML);
    let k = sym::pick(4, "which");
    let s = sym::arr::<4>("sig");
    match k {
        0 => f[..4].copy_from_slice(&s),
        1 => f[4..8].copy_from_slice(&s),
        2 => {
            f[..4].copy_from_slice(&s);
            f[4..8].copy_from_slice(&[0x65, 0xfb, 0x4b, 0xb5]);
        }
        _ => f[4..8].copy_from_slice(&[0x65, 0xfb, 0x4b, 0xb5]),
    }
    let a: [u8; 4] = [f[0], f[1], f[2], f[3]];
    let b: [u8; 4] = [f[4], f[5], f[6], f[7]];
    match try_open(f) {
        Err(Error::InvalidDbSignature(x)) => expect(x == a && a != kdbx::SIG[..4], "InvalidDbSignature names the signature"),
        Err(Error::UnhandledDbType(x)) => expect(x == b && a == kdbx::SIG[..4] && b != kdbx::SIG[4..], "UnhandledDbType names the type"),
        Ok(_) => expect(a == kdbx::SIG[..4] && b == kdbx::SIG[4..], "only a KeePass 2 database opens"),
        Err(_) => expect(false, "the error for a wrong signature"),
    }
    sym::reach(1);
}
/// A field with an unknown number, anywhere.
pub fn h_err_field() {
    let p = Params::new();
    let mut items = p.items();
    let at = sym::pick(items.len() as u32 + 1, "at");
    let id = sym::u8v("id");
    sym::assume(id > 10);
    items.insert(at, (id, sym::bytes([0, 4][at & 1], "data")));
    let h = p.header_of(&items, b"\r\n\r\n");
    let f = p.seal(&h, &key32(), &kdbx::cat(&[&p.start, &kdbx::blocks(&[XML])]));
    match try_open(f) {
        Err(Error::UnhandledHeader(x)) => expect(x == id, "UnhandledHeader names the field"),
        _ => expect(false, "an unknown header field is refused"),
    }
    sym::reach(1);
}
/// A field of the wrong size.
pub fn h_err_size() {
    let p = Params::new();
    let items = p.items();
    let at = sym::pick(items.len() as u32, "at");
    let (id, data) = &items[at];
    let mut h = p.header();
    let mut o = 12;
    for i in &items[..at] {
        o += 3 + i.1.len();
    }
    let n = sym::arr::<2>("size");
    let size = u16::from_le_bytes(n);
    sym::assume(size as usize != data.len());
    h[o + 1..o + 3].copy_from_slice(&n);
    let f = p.seal(&h, &key32(), &kdbx::cat(&[&p.start, &kdbx::blocks(&[XML])]));
    match try_open(f) {
        Err(Error::InvalidHeaderSize { id: i, expected, actual }) => {
            expect(i == *id && expected as usize == data.len() && actual == size, "InvalidHeaderSize says which and how")
        }
        _ => expect(false, "a header field of the wrong size is refused"),
    }
    sym::reach(1);
}
/// One or two fields are missing.
pub fn h_err_missing() {
    let p = Params::new();
    let mut items = p.items();
    let a = items.remove(sym::pick(items.len() as u32, "first")).0;
    let k = sym::pick(items.len() as u32 + 1, "second");
    let b = if k < items.len() { items.remove(k).0 } else { a };
    let h = p.header_of(&items, b"\r\n\r\n");
    let f = p.seal(&h, &key32(), &kdbx::cat(&[&p.start, &kdbx::blocks(&[XML])]));
    match try_open(f) {
        Err(Error::MissingHeader(i)) => expect(i == a || i == b, "MissingHeader names the field"),
        _ => expect(false, "a missing header field is noticed"),
    }
    sym::reach(1);
}
/// Ciphers and compressions that are not supported.
pub fn h_err_kind() {
    let mut p = Params::new();
    let k = sym::pick(3, "what");
    match k {
        0 => p.cipher = sym::arr("cipher"),
        1 => p.compression = sym::u32v("compression"),
        _ => p.stream_cipher = sym::u32v("stream"),
    }
    let f = p.file(&key32(), XML);
    match try_open(f) {
        Err(Error::UnhandledMasterCipher(x)) => expect(k == 0 && x == p.cipher && p.cipher != kdbx::AES_ID, "UnhandledMasterCipher names the cipher"),
        Err(Error::UnhandledCompression(x)) => expect(k == 1 && x == p.compression && x > 1, "UnhandledCompression names the compression"),
        Err(Error::UnhandledStreamCipher(x)) => expect(k == 2 && x == p.stream_cipher && x != 2, "UnhandledStreamCipher names the cipher"),
        Err(Error::Io(_)) => expect(k == 1 && p.compression == 1, "only compressed data can be bad compressed data"),
        Ok(_) => expect(
            match k {
                0 => p.cipher == kdbx::AES_ID,
                1 => p.compression == 0,
                _ => p.stream_cipher == 2,
            },
            "only supported kinds open",
        ),
        Err(_) => expect(false, "the error for an unsupported kind"),
    }
    sym::reach(1);
}
/// KeePass 1 databases cannot be saved, and nothing is written.
pub fn h_err_kdb1() {
    let mut d = db();
    d.db_type = DbType::Kdb1;
    d.name = plain(1, "name");
    let mut out = vec![];
    match d.save(&mut out) {
        Err(Error::Unimplemented(_)) => expect(out.is_empty(), "nothing is written"),
        _ => expect(false, "KeePass 1 is not implemented"),
    }
    sym::reach(1);
}
/// A comment of any size is either saved completely or refused.
pub fn h_err_comment() {
    let n = [65534usize, 65535, 65536, 65537, 70000, 131072, 131077][sym::pick(7, "len")];
    let mut d = tiny();
    let mut c = vec![b'c'; n];
    c[n - 1] = sym::u8v("last");
    c[0] = sym::u8v("first");
    d.comment = Some(Comment(c));
    let mut out = vec![];
    match d.save(&mut out) {
        Ok(()) => {
            expect(n <= 65535, "a comment that does not fit is refused");
            focus_header(&out);
            let e = open(out);
            expect(e.comment == d.comment, "a long comment survives");
        }
        Err(_) => expect(n > 65535, "a comment that fits is saved"),
    }
    sym::reach(1);
}
/// A text with a character that XML cannot represent is refused; all others are not.
pub fn h_err_text() {
    let mut d = tiny();
    let mut e = full_entry(1);
    let mut g = full_group(2);
    let mut c = 0;
    let t = match sym::pick(6, "kind") {
        0 => {
            let b = sym::bytes(1, "text");
            sym::assume(b[0] < 32);
            c = b[0];
            String::from_utf8(b).unwrap()
        }
        1 => "a\u{fffe}".to_string(),
        2 => "\u{ffff}".to_string(),
        // far behind, or amid others
        3 => "long ".repeat(1000) + "\u{1}",
        4 => "\u{1f511}".repeat(1100) + "\u{fffe}\u{e9}",
        _ => "\u{e9}".to_string() + "\u{7}" + &"x".repeat(70),
    };
    let k = sym::pick(20, "place");
    // white space in an attribute is out of scope
    let bad = c != 9 && c != 10 && c != 13;
    let mut protected = false;
    match k {
        0 => d.name = t,
        1 => d.description = t,
        2 => d.def_username = t,
        3 => {
            d.custom_data.insert(t, "v".into());
        }
        4 => {
            d.custom_data.insert("k".into(), t);
        }
        5 => {
            d.binaries.insert(BinaryId(t), vec![1]);
        }
        6 => g.name = t,
        7 => g.notes = t,
        8 => g.def_auto_type_sequence = t,
        9 => e.tags = t,
        10 => e.override_url = t,
        11 => e.auto_type_def_sequence = t,
        12 => e.associations[0].window = t,
        13 => e.associations[1].keystroke_sequence = t,
        14 => e.set_other(StringKey::Other(t), "v"),
        15 => e.set_title(t),
        16 => {
            e.binaries.insert(BinaryKey(t), BinaryValue::Plain(vec![1]));
        }
        17 => {
            e.binaries.insert(BinaryKey("k".into()), BinaryValue::Ref(BinaryId(t)));
        }
        18 => {
            let mut h = e.clone();
            h.set_url(t);
            e.history.push(h);
        }
        _ => {
            e.set_password(t);
            protected = true;
        }
    }
    g.entries.push(e);
    d.root_group.groups.push(g);
    let mut out = vec![];
    match d.save(&mut out) {
        Ok(()) => {
            expect(protected || !bad, "text that cannot be stored is refused");
            let f = open(out);
            if protected {
                same_db(&d, &f);
            }
        }
        Err(_) => expect(bad && !protected, "text that can be stored is saved"),
    }
    sym::reach(1);
}

/// A protected string that is no text is refused, since nobody could open the file again.
pub fn h_err_utf8() {
    let mut d = tiny();
    let mut e = full_entry(1);
    let mut g = full_group(2);
    let n = 1 + sym::pick(if sym::tier() > 0 { 4 } else { 3 }, "size");
    let b = sym::bytes(n, "value");
    let v = match sym::pick(3, "amid") {
        0 => b.clone(),
        1 => kdbx::cat(&[&[b'a'; 40], &b]),
        _ => kdbx::cat(&[&b, "\u{e9}x".as_bytes()]),
    };
    let key = [StringKey::Password, StringKey::Notes, StringKey::Other("more".into())][sym::pick(3, "key")].clone();
    let good = std::str::from_utf8(&v).is_ok();
    let value = StringValue::Protected(SecStr::new(v));
    match sym::pick(3, "place") {
        0 => {
            e.strings.insert(key, value);
            d.root_group.entries.push(e);
        }
        1 => {
            let mut h = e.clone();
            h.strings.insert(key, value);
            e.history.push(h);
            d.root_group.entries.push(e);
        }
        _ => {
            e.strings.insert(key, value);
            g.entries.push(e);
        }
    }
    d.root_group.groups.push(g);
    let mut out = vec![];
    match d.save(&mut out) {
        Ok(()) => {
            expect(good, "what is no text is refused");
            if n == 1 {
                same_db(&d, &open(out));
            }
        }
        Err(_) => expect(!good, "text that can be stored is saved"),
    }
    sym::reach(1);
}

/// The header and the hash of the header in the document.
pub fn h_tamper_header() {
    let mut p = Params::new();
    let mut q = p.clone();
    let (mut e1, mut e2) = (vec![13, 10, 13, 10], vec![13, 10, 13, 10]);
    let what = sym::pick(6, "what");
    match what {
        5 => {
            // far into a long header
            let n = [100usize, 1000, 5000, 65535][sym::pick(4, "size")];
            let at = [0, n / 2, n - 1][sym::pick(3, "at")];
            let mut c = vec![7u8; n];
            c[at] = [7u8, 8, 0x87][sym::pick(3, "now")];
            p.comment = Some(c.clone());
            c[at] = 7;
            q.comment = Some(c);
            if sym::pick(2, "rest") == 1 {
                p.stream_key[31] ^= 1;
            }
        }
        0 => {
            p.comment = Some(sym::bytes(2, "now"));
            q.comment = Some(sym::bytes(2, "then"));
        }
        1 => {
            p.minor = u16::from_le_bytes(sym::arr("now"));
            q.minor = u16::from_le_bytes(sym::arr("then"));
        }
        2 => {
            p.major = u16::from_le_bytes(sym::arr("now"));
            q.major = u16::from_le_bytes(sym::arr("then"));
        }
        3 => {
            e1 = sym::bytes(4, "now");
            e2 = sym::bytes(4, "then");
        }
        _ => {
            p.stream_key[31] = sym::u8v("now");
            q.stream_key[31] = sym::u8v("then");
        }
    }
    let h1 = p.header_of(&p.items(), &e1);
    let h2 = q.header_of(&q.items(), &e2);
    if what != 5 {
        focus_header(&h1);
        focus_header(&h2);
    }
    let hash = sym::sha256(&h2);
    let mut x = b"<KeePassFile><Meta><DatabaseName>tiny</DatabaseName><HeaderHash>".to_vec();
    x.extend(kdbx::b64(&hash));
    x.extend(b"</HeaderHash></Meta></KeePassFile>");
    let f = p.seal(&h1, &key32(), &kdbx::cat(&[&p.start, &kdbx::blocks(&[&x])]));
    match try_open(f) {
        Ok(_) => expect(h1 == h2, "a modified header is noticed"),
        Err(Error::InvalidHeaderHash) => expect(h1 != h2, "the right header is accepted"),
        Err(_) => expect(false, "the error for a modified header"),
    }
    sym::reach(1);
}
/// The header hash itself, any bytes of any length.
pub fn h_tamper_hash() {
    let p = Params::new();
    let h = p.header();
    let real = sym::sha256(&h);
    let k = sym::pick(6, "kind");
    let v = match k {
        0 => sym::bytes(32, "hash"),
        1 => {
            let mut v = real.to_vec();
            v[sym::pick(32, "at")] = sym::u8v("byte");
            v
        }
        2 => real[..31].to_vec(),
        3 => kdbx::cat(&[&real, &[0]]),
        4 => vec![],
        _ => real[..16].to_vec(),
    };
    no_slash(&v);
    let mut x = b"<KeePassFile><Meta><DatabaseName>tiny</DatabaseName><HeaderHash>".to_vec();
    x.extend(kdbx::b64(&v));
    x.extend(b"</HeaderHash></Meta></KeePassFile>");
    let f = p.seal(&h, &key32(), &kdbx::cat(&[&p.start, &kdbx::blocks(&[&x])]));
    match try_open(f) {
        Ok(_) => expect(v[..] == real[..], "a wrong header hash is noticed"),
        Err(Error::InvalidHeaderHash) => expect(v[..] != real[..], "the right header hash is accepted"),
        Err(_) => expect(false, "the error for a wrong header hash"),
    }
    sym::reach(1);
}
/// A modified header field of a saved file, every field that decryption does not depend on symbolically.
pub fn h_tamper_saved() {
    let mut d = tiny();
    d.comment = Some(Comment(vec![1, 2, 3]));
    let k = sym::pick(9, "field");
    if k != 4 {
        // a symbolic stream key would leave the protected values to Salsa20
        let mut e = full_entry(1);
        e.set_password("secret");
        d.root_group.entries.push(e);
    }
    let mut f = save(&d);
    // minor, major, comment, iv, stream key, start bytes, transform seed, master seed, rounds
    let ids = [0, 0, 1, 7, 8, 9, 5, 4, 6];
    let at = if k < 2 {
        8 + 2 * k
    } else {
        let mut at = 12;
        while f[at] != ids[k] {
            at += 3 + u16::from_le_bytes([f[at + 1], f[at + 2]]) as usize;
        }
        at + 3 + if k == 8 { 0 } else { sym::pick(3, "byte") }
    };
    let b = if k == 8 { [3u8, 0, 2][sym::pick(3, "rounds")] } else { sym::u8v("new") };
    sym::assume(b != f[at]);
    f[at] = b;
    focus_header(&f);
    if k >= 6 {
        ideal(&f, &key32());
    }
    expect(try_open(f).is_err(), "a modified header field is noticed");
    sym::reach(1);
}
/// Decryption under another key does not happen to yield the start bytes.
fn ideal(f: &[u8], key: &[u8; 32]) {
    let mut at = 12;
    let mut field = vec![vec![]; 11];
    loop {
        let n = u16::from_le_bytes([f[at + 1], f[at + 2]]) as usize;
        field[f[at] as usize] = f[at + 3..at + 3 + n].to_vec();
        let id = f[at];
        at += 3 + n;
        if id == 0 {
            break;
        }
    }
    let a32 = |v: &[u8]| {
        let mut a = [0u8; 32];
        a.copy_from_slice(v);
        a
    };
    let mut r = [0u8; 8];
    r.copy_from_slice(&field[6]);
    let k = kdbx::master_key(key, &a32(&field[4]), &a32(&field[5]), u64::from_le_bytes(r));
    let mut iv = [0u8; 16];
    iv.copy_from_slice(&field[7]);
    let p = kdbx::cbc_decrypt(&k, &iv, &f[at..at + 32]);
    sym::focus(p != field[9]);
}
/// Blocks: hash, content, number, order.
pub fn h_tamper_block() {
    let p = Params::new();
    let h = p.header();
    let k = sym::pick(5, "what");
    let (a, b) = XML.split_at(30);
    let mut want = true;
    let body = match k {
        0 => {
            let hash = sym::arr::<32>("hash");
            want = hash == sym::sha256(XML);
            let mut x = kdbx::blocks(&[XML]);
            x[4..36].copy_from_slice(&hash);
            x
        }
        1 => {
            let mut x = XML.to_vec();
            let y = x.clone();
            let at = 20 + sym::pick(6, "at");
            x[at] = sym::u8v("byte");
            want = x == y;
            let mut z = kdbx::blocks(&[&y]);
            z[40..40 + x.len()].copy_from_slice(&x);
            z
        }
        2 => {
            let mut v = vec![];
            for (i, d) in [a, b].iter().enumerate() {
                let id = sym::u32v("id");
                want = want & (id == i as u32);
                v.extend(kdbx::block(id, d));
            }
            let id = sym::u32v("id");
            want = want & (id == 2);
            v.extend(kdbx::last_block(id));
            v
        }
        3 => {
            let hash = sym::arr::<32>("hash");
            want = hash == [0u8; 32];
            let mut v = kdbx::block(0, XML);
            v.extend(1u32.to_le_bytes());
            v.extend(&hash);
            v.extend(0u32.to_le_bytes());
            v
        }
        _ => {
            want = false;
            let b = |i, d| kdbx::block(i, d);
            match sym::pick(8, "order") {
                0 => kdbx::cat(&[&b(1, &XML[30..]), &b(0, a), &kdbx::last_block(2)]),
                1 => kdbx::cat(&[&b(0, XML), &b(0, b" "), &kdbx::last_block(2)]),
                2 => kdbx::cat(&[&b(0, XML)]),
                3 => kdbx::cat(&[&b(1, XML), &kdbx::last_block(2)]),
                4 => kdbx::cat(&[&b(0, XML), &kdbx::last_block(2)]),
                5 => kdbx::cat(&[&b(0, XML), &b(2, b" "), &kdbx::last_block(3)]),
                6 => kdbx::cat(&[&b(0, a), &b(0, a), &b(1, &XML[30..]), &kdbx::last_block(2)]),
                _ => kdbx::cat(&[&b(0, XML), &b(1, b" "), &kdbx::last_block(1)]),
            }
        }
    };
    let f = p.seal(&h, &key32(), &kdbx::cat(&[&p.start, &body]));
    match try_open(f) {
        Ok(d) => expect(want && d.name == "tiny", "a modified block is noticed"),
        Err(Error::InvalidBlockHash) => expect(!want && (k == 0 || k == 1), "the right block hash is accepted"),
        Err(Error::InvalidBlockId(_)) => expect(!want && (k == 2 || k == 4), "the right block number is accepted"),
        Err(Error::InvalidFinalBlockHash(_)) => expect(!want && k == 3, "the right final block is accepted"),
        Err(Error::Io(_)) => expect(!want && k == 4, "only a missing block is an early end"),
        Err(_) => expect(false, "the error for a modified block"),
    }
    sym::reach(1);
}
/// A modified byte anywhere in the encrypted part of a saved file.
pub fn h_tamper_payload() {
    let mut d = tiny();
    let mut e = full_entry(1);
    e.set_password("secret");
    d.root_group.entries.push(e);
    let mut f = save(&d);
    let mut at = 12;
    while f[at] != 0 {
        at += 3 + u16::from_le_bytes([f[at + 1], f[at + 2]]) as usize;
    }
    at += 3 + u16::from_le_bytes([f[at + 1], f[at + 2]]) as usize;
    let n = (f.len() - at) / 16;
    let steps = if sym::tier() > 0 { 60 } else { 14 };
    let k = sym::pick(steps, "block") * (n - 1) / (steps as usize - 1);
    let i = at + 16 * k + sym::pick(2, "byte") * 15;
    let x = sym::u8v("flip");
    sym::assume(x != 0);
    let key = kdbx::master_key(&key32(), &arr32(&f, 4), &arr32(&f, 5), 1);
    let old = payload(&f, &key, at);
    let was = sym::aes(&key, &f[at + 16 * k..at + 16 * k + 16], false);
    f[i] ^= x;
    let is = sym::aes(&key, &f[at + 16 * k..at + 16 * k + 16], false);
    // the garbled block is not nearly the old one
    sym::focus(was[0] != is[0] && was[1] != is[1] && was[15] != is[15] && was[4] != is[4]);
    // nor does it announce a huge block
    let new = payload(&f, &key, at);
    let size = u32::from_le_bytes([old[68], old[69], old[70], old[71]]);
    for p in [68, 72 + size as usize + 36] {
        let m = u32::from_le_bytes([new[p], new[p + 1], new[p + 2], new[p + 3]]);
        let w = u32::from_le_bytes([old[p], old[p + 1], old[p + 2], old[p + 3]]);
        sym::focus(m == w || m < 20);
    }
    expect(try_open(f).is_err(), "a modified payload is noticed");
    sym::reach(1);
}
fn payload(f: &[u8], key: &[u8; 32], at: usize) -> Vec<u8> {
    let mut iv = [0; 16];
    let mut pos = 12;
    while f[pos] != 7 {
        pos += 3 + u16::from_le_bytes([f[pos + 1], f[pos + 2]]) as usize;
    }
    iv.copy_from_slice(&f[pos + 3..pos + 19]);
    kdbx::cbc_decrypt(key, &iv, &f[at..])
}
fn arr32(f: &[u8], id: u8) -> [u8; 32] {
    let mut at = 12;
    while f[at] != id {
        at += 3 + u16::from_le_bytes([f[at + 1], f[at + 2]]) as usize;
    }
    let mut a = [0; 32];
    a.copy_from_slice(&f[at + 3..at + 35]);
    a
}

fn key_of(kind: usize, pw: &str, key: &[u8]) -> (CompositeKey, [u8; 32]) {
    let kf = KeyFile { key: SecStr::new(key.to_vec()), file_type: KeyFileType::Binary };
    match kind {
        0 => (CompositeKey::from_password(pw), kdbx::password_key(pw.as_bytes())),
        1 => (CompositeKey::from_key_file(kf), kdbx::file_key(key)),
        _ => (CompositeKey::from_both(pw, kf), kdbx::both_key(pw.as_bytes(), key)),
    }
}
/// A database opens with its own key and with no other.
pub fn h_key_wrong() {
    let kinds = sym::pick(9, "kinds");
    let (ka, kb) = (kinds / 3, kinds % 3);
    let lens = [0usize, 1, 3, 33];
    let lengths = sym::pick(11, "lengths");
    let (na, nb) = match lengths {
        7 => (2, 3),
        8 => (64, 65),
        9 => (2, 2),
        10 => (3, 2),
        5 => (300, 300),
        6 => (129, 128),
        0 => (3, 3),
        1 => (3, 1),
        2 => (0, 1),
        3 => (33, 33),
        _ => (lens[3], lens[1]),
    };
    let (pa, pb) = match lengths {
        9 | 10 => (utf8(na, "pw-a"), utf8(nb, "pw-b")),
        _ => (crate::api::ascii(na, "pw-a"), crate::api::ascii(nb, "pw-b")),
    };
    let (fa, fb) = (sym::arr::<32>("key-a"), sym::arr::<32>("key-b"));
    let (a, xa) = key_of(ka, &pa, &fa);
    let (b, xb) = key_of(kb, &pb, &fb);
    let same = ka == kb && (ka == 1 || pa == pb) && (ka == 0 || fa == fb);
    let mut d = Database::new(&a);
    d.compression = Compression::None;
    d.transform_rounds = TransformRounds(1);
    d.name = "tiny".into();
    let f = save(&d);
    sym::assume(!same);
    sym::focus(xa != xb);
    expect(a.unsecure() != b.unsecure(), "different keys differ");
    ideal(&f, &b.unsecure());
    match Database::open(&mut Cursor::new(f), &b) {
        Err(Error::InvalidKey) | Err(Error::CryptoError(_)) => {}
        Ok(_) => expect(false, "another key does not open the database"),
        Err(_) => expect(false, "the error for a wrong key"),
    }
    sym::reach(1);
}

/// Nothing but bytes.
pub fn h_any_bytes() {
    let n = sym::pick(15, "len");
    let b = sym::bytes(n, "bytes");
    expect(try_open(b).is_err(), "a few bytes are not a database");
    sym::reach(1);
}
/// Signature and version, then arbitrary fields, perhaps cut short; perhaps
/// followed by all that a database needs.
pub fn h_any_header() {
    let p = Params::new();
    let good = p.header();
    let mut b = good[..12].to_vec();
    let fields = 1 + sym::pick(if sym::tier() > 0 { 2 } else { 1 }, "fields");
    for _ in 0..fields {
        b.push(sym::u8v("id"));
        let size = [0u16, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 255, 256, 65535][sym::pick(16, "size")];
        b.extend(size.to_le_bytes());
        b.extend(sym::bytes(size.min(34) as usize, "data"));
    }
    match sym::pick(3, "rest") {
        0 => expect(try_open(b).is_err(), "a header alone is not a database"),
        1 => {
            // the last bytes are missing
            let n = b.len() - 1 - sym::pick(5, "cut");
            sym::assume(n > 12);
            b.truncate(n);
            expect(try_open(b).is_err(), "a part of a header is not a database");
        }
        _ => {
            b.extend(&good[12..]);
            sym::focus(b[12] != 0);
            let f = p.seal(&b, &key32(), &kdbx::cat(&[&p.start, &kdbx::blocks(&[XML])]));
            let _ = try_open(f);
        }
    }
    sym::reach(1);
}
/// A good header, then arbitrary bytes instead of encrypted data.
pub fn h_any_cipher() {
    let n = [0usize, 1, 15, 16, 17, 32, 47, 48, 64][sym::pick(9, "len")];
    let p = Params::new();
    let f = kdbx::cat(&[&p.header(), &sym::bytes(n, "bytes")]);
    let _ = try_open(f);
    sym::reach(1);
}
/// Properly encrypted, but the plaintext is arbitrary.
pub fn h_any_payload() {
    let p = Params::new();
    let n = [0usize, 1, 15, 16, 31, 32][sym::pick(6, "len")];
    let f = p.seal(&p.header(), &key32(), &sym::bytes(n, "bytes"));
    expect(try_open(f).is_err(), "too short to be a database");
    sym::reach(1);
}
/// The start bytes are right, the blocks are arbitrary.
pub fn h_any_blocks() {
    let p = Params::new();
    let mut d = p.start.to_vec();
    for _ in 0..sym::pick(if sym::tier() > 0 { 3 } else { 2 }, "blocks") {
        let n = [0usize, 1, 2][sym::pick(3, "size")];
        d.extend(sym::bytes(36, "head"));
        d.extend((n as u32).to_le_bytes());
        d.extend(sym::bytes(n, "data"));
    }
    match sym::pick(3, "rest") {
        0 => {}
        1 => d.extend(sym::bytes(1 + sym::pick(39, "part"), "part")),
        _ => {
            d.extend(sym::bytes(36, "head"));
            d.extend([3u32, 4, 255, 256, 4096, 65536, 1 << 20, 1 << 31, u32::MAX, i32::MAX as u32][sym::pick(10, "large")].to_le_bytes());
            d.extend(sym::bytes(2, "data"));
        }
    }
    let f = p.seal(&p.header(), &key32(), &d);
    expect(try_open(f).is_err(), "arbitrary blocks are not a database");
    sym::reach(1);
}
/// Compressed content that is not, or not all of it.
pub fn h_any_gzip() {
    let mut p = Params::new();
    p.compression = 1;
    let good = crate::doc::gzip(XML);
    let b = match sym::pick(5, "kind") {
        0 => sym::bytes(sym::pick(if sym::tier() > 0 { 4 } else { 3 }, "len"), "bytes"),
        // the first bytes of a header are right
        1 => {
            let n = [2, 3, 4, 9, 10][sym::pick(5, "len")];
            kdbx::cat(&[&good[..n], &sym::bytes(1, "byte")])
        }
        // cut short
        2 => {
            let n = sym::pick(good.len() as u32, "cut");
            good[..n].to_vec()
        }
        // another checksum or size
        3 => {
            let mut b = good.clone();
            let n = b.len() - 8 + sym::pick(8, "at");
            let x = sym::u8v("byte");
            sym::assume(x != b[n]);
            b[n] = x;
            b
        }
        // one wrong byte, as far as that can be told
        _ => {
            let mut b = good.clone();
            let n = sym::pick(good.len() as u32, "at");
            b[n] ^= [1u8, 0x80, 0xff][sym::pick(3, "flip")];
            let f = p.seal(&p.header(), &key32(), &kdbx::cat(&[&p.start, &kdbx::blocks(&[&b])]));
            match try_open(f) {
                // time, system and padding are not covered by the checksum
                Ok(d) => expect(d.name == "tiny", "damaged compressed content is refused"),
                Err(_) => {}
            }
            sym::reach(1);
            return;
        }
    };
    let f = p.seal(&p.header(), &key32(), &kdbx::cat(&[&p.start, &kdbx::blocks(&[&b])]));
    expect(try_open(f).is_err(), "a part of compressed content is no document");
    sym::reach(1);
}
/// The hash is right, the document is a few arbitrary bytes.
pub fn h_any_document() {
    let p = Params::new();
    let n = sym::pick(if sym::tier() > 0 { 4 } else { 3 }, "len");
    let b = sym::bytes(n, "bytes");
    let f = p.seal(&p.header(), &key32(), &kdbx::cat(&[&p.start, &kdbx::blocks(&[&b])]));
    expect(try_open(f).is_err(), "a few bytes are not a document");
    sym::reach(1);
}
/// A prefix of a file is not a database.
pub fn h_cut_file() {
    let mut d = tiny();
    let mut e = full_entry(1);
    e.set_password("secret");
    d.root_group.entries.push(e);
    d.compression = if sym::pick(2, "gzip") == 1 { Compression::GZip } else { Compression::None };
    let f = save(&d);
    let n = f.len();
    let head = 12 + 10 * 3 + 16 + 4 + 32 + 32 + 8 + 16 + 32 + 32 + 4;
    let k = sym::pick(200, "cut");
    let cut = match k {
        0..=19 => k,
        20..=119 => 12 + (k - 20) * (head - 12) / 99,
        120..=179 => n - (n - head) / 16 * (k - 119) / 61 * 16,
        _ => n - (k - 179),
    };
    sym::assume(cut < n);
    expect(try_open(f[..cut].to_vec()).is_err(), "a prefix of a file does not open");
    sym::reach(1);
}
/// The payload ends early, but is sealed properly.
pub fn h_cut_payload() {
    let mut p = Params::new();
    let xml = match sym::pick(2, "compression") {
        0 => kdbx::cat(&[b"<KeePassFile><Meta><DatabaseName>", plain(2, "name").as_bytes(), b"</DatabaseName></Meta></KeePassFile>"]),
        _ => {
            p.compression = 1;
            crate::doc::gzip(XML)
        }
    };
    let body = match sym::pick(3, "blocks") {
        0 => kdbx::blocks(&[&xml]),
        1 => kdbx::blocks(&[&xml[..20], &xml[20..]]),
        _ => kdbx::blocks(&[&xml[..xml.len() - 1], &xml[xml.len() - 1..]]),
    };
    let n = body.len();
    let all = kdbx::cat(&[&p.start, &body]);
    let steps = if sym::tier() > 0 { n as u32 } else { 60 };
    let k = sym::pick(steps, "cut");
    let ends = [40, 60, 39 + xml.len(), 40 + xml.len(), 79 + xml.len(), 80 + xml.len(), 119 + xml.len(), 120 + xml.len(), 0, n - 40];
    // every cut in the last block and before it, the ends of the others, some in between
    let cut = if sym::tier() > 0 {
        k
    } else if k < 42 {
        n - 1 - k
    } else if k < 52 {
        ends[k - 42]
    } else {
        (k - 52) * n / 8
    };
    sym::assume(cut < n);
    let f = p.seal(&p.header(), &key32(), &all[..32 + cut]);
    expect(try_open(f).is_err(), "a payload that ends early does not open");
    sym::reach(1);
}
/// Wherever the cut leaves something that looks like padding.
pub fn h_cut_padding() {
    let p = Params::new();
    let n = if sym::tier() > 0 { 96 } else { 48 };
    let mut data = kdbx::cat(&[&p.start, &kdbx::blocks(&[&sym::bytes(n, "bytes")])]);
    let m = data.len() / 16;
    let k = sym::pick(m as u32, "cut");
    data.truncate(16 * k + 16);
    let key = p.master_key(&key32());
    let f = kdbx::cat(&[&p.header(), &kdbx::cbc_encrypt(&key, &p.iv, &data)]);
    expect(try_open(f).is_err(), "a prefix of the payload does not open");
    sym::reach(1);
}

/// Values of the document with arbitrary content.
pub fn h_bad_value() {
    const PLACES: &[(&str, &str)] = &[
        ("Meta", "Color"),
        ("Meta", "DatabaseNameChanged"),
        ("Meta", "HistoryMaxItems"),
        ("Meta", "RecycleBinEnabled"),
        ("Meta", "RecycleBinUUID"),
        ("Meta", "HeaderHash"),
        ("Meta", "DatabaseName"),
        ("Meta/MemoryProtection", "ProtectNotes"),
        ("Root/Group", "IconID"),
        ("Root/Group", "EnableSearching"),
        ("Root/Group", "CustomIconUUID"),
        ("Root/Group/Times", "UsageCount"),
        ("Root/Group/Times", "Expires"),
        ("Root/Group/Entry", "UUID"),
        ("Root/Group/Entry", "ForegroundColor"),
        ("Root/Group/Entry/AutoType", "DataTransferObfuscation"),
        ("Root/Group/Entry/AutoType", "Enabled"),
        ("Root/Group/Entry/Times", "ExpiryTime"),
        ("Meta", "Generator"),
        ("Root/Group", "Name"),
        ("Root/Group/Entry", "Tags"),
        ("Root/Group/Entry/String", "Key"),
        ("Root/Group/Entry/AutoType/Association", "Window"),
        ("Meta/CustomData/Item", "Key"),
    ];
    let (path, tag) = PLACES[sym::pick(PLACES.len() as u32, "place")];
    let n = if sym::tier() > 0 { 2 } else { 1 };
    let pre: &[u8] = match sym::pick(2, "prefix") {
        0 => b"",
        _ => match tag {
            "Color" | "ForegroundColor" => b"#12345",
            "DatabaseNameChanged" | "ExpiryTime" => b"2009-02-13T23:31:30",
            "HistoryMaxItems" | "IconID" | "UsageCount" | "DataTransferObfuscation" => b"1",
            "UUID" | "RecycleBinUUID" | "CustomIconUUID" => b"ECEyQ1RlRoeYqbrL3O3+D",
            "DatabaseName" => b"]]&",
            "Generator" | "Name" | "Tags" | "Key" | "Window" => "\u{1f511}\u{e9}".as_bytes(),
            _ => b"tru",
        },
    };
    let mut v = pre.to_vec();
    v.extend(sym::bytes(n, "value"));
    document(path, tag, b"", &v);
}
/// Values of the right kind, but of any length, and with a wrong byte anywhere.
pub fn h_bad_shape() {
    const PLACES: &[(&str, &str)] = &[
        ("Meta", "Color"),
        ("Root/Group/Entry", "BackgroundColor"),
        ("Meta", "MasterKeyChanged"),
        ("Root/Group/Times", "LastAccessTime"),
        ("Meta", "MaintenanceHistoryDays"),
        ("Root/Group/Entry", "IconID"),
        ("Root/Group/Entry/AutoType", "DataTransferObfuscation"),
        ("Meta", "LastSelectedGroup"),
        ("Root/Group", "UUID"),
        ("Root/Group", "LastTopVisibleEntry"),
        ("Root/Group/Entry", "CustomIconUUID"),
        ("Meta/CustomIcons/Icon", "UUID"),
        ("Meta/CustomIcons/Icon", "Data"),
        ("Meta/Binaries", "Binary"),
        ("Root/Group/Entry/Binary", "Value"),
        ("Root/Group/Entry/String", "Value"),
        ("Meta", "HeaderHash"),
        ("Root/Group", "EnableAutoType"),
        ("Root/Group/Entry/Times", "Expires"),
    ];
    let (path, tag) = PLACES[sym::pick(PLACES.len() as u32, "place")];
    let shape: &[u8] = match tag {
        "Color" | "BackgroundColor" => b"#12ab9FcD0",
        "MasterKeyChanged" | "LastAccessTime" => b"2009-02-13T23:31:30.123456789+12:345",
        "MaintenanceHistoryDays" | "IconID" | "DataTransferObfuscation" => b"+12345678901234567890",
        "EnableAutoType" | "Expires" => b"Truefalsenull",
        _ => b"H4sIAAAAAAAAA0tMTAQAhbWmTAMAAAECAwQFBgc=",
    };
    let n = sym::pick(shape.len() as u32 + 1, "len");
    let mut v = shape[..n].to_vec();
    match sym::pick(8, "end") {
        0 => {}
        // another byte among the right ones
        7 => {
            let good = match tag {
                "Color" | "BackgroundColor" => &shape[..7],
                "MasterKeyChanged" | "LastAccessTime" => b"2009-02-13T23:31:30Z",
                "MaintenanceHistoryDays" => b"-2147483648",
                "IconID" => b"68",
                "DataTransferObfuscation" => b"1",
                "EnableAutoType" | "Expires" => b"false",
                "UUID" | "LastSelectedGroup" | "LastTopVisibleEntry" | "CustomIconUUID" => b"ECEyQ1RlRoeYqbrL3O3+Dw==",
                _ => shape,
            };
            sym::assume(n < good.len());
            v = good.to_vec();
            v[n] = sym::u8v("other");
        }
        1 => v.extend(b"="),
        2 => v.extend(b"=="),
        3 => v.extend(sym::bytes(1, "odd")),
        w => {
            // a character of several bytes among or after the others
            v.extend(["\u{e9}", "\u{20ac}", "\u{1f511}"][w - 4].as_bytes());
            v.extend(&shape[n..]);
        }
    }
    if n > 0 && sym::tier() > 0 && sym::pick(2, "more") == 1 {
        v.extend(&shape[n - 1..]);
    }
    let attrs: &[u8] = match tag {
        "Binary" => [&b" ID=\"0\" Compressed=\"True\""[..], b" ID=\"0\" Protected=\"True\"", b" ID=\"0\""][sym::pick(3, "kind")],
        "Value" => [&b" Protected=\"True\""[..], b""][sym::pick(2, "kind")],
        _ => b"",
    };
    document(path, tag, attrs, &v);
}
/// Times that do not exist, or only just.
pub fn h_bad_time() {
    let v = match sym::pick(4, "kind") {
        0 => {
            let y = ["2023", "2024", "1900", "2000", "0000", "9999", "0001"][sym::pick(7, "year")];
            let m = sym::pick(14, "month");
            let day = [0usize, 1, 28, 29, 30, 31, 32, 99][sym::pick(8, "day")];
            format!("{}-{:02}-{:02}T00:00:00Z", y, m, day)
        }
        1 => {
            let h = [0usize, 23, 24, 25, 99][sym::pick(5, "hour")];
            let m = [0usize, 59, 60, 99][sym::pick(4, "minute")];
            let s = [0usize, 59, 60, 61, 99][sym::pick(5, "second")];
            let date = ["2016-12-31", "1969-12-31", "9999-12-31", "0000-01-01"][sym::pick(4, "date")];
            format!("{}T{:02}:{:02}:{:02}Z", date, h, m, s)
        }
        2 => {
            let o = ["+00:00", "-00:00", "+23:59", "-23:59", "+24:00", "-24:00", "+99:99", "+1:00", "+0100", "+01", "z", ""][sym::pick(12, "offset")];
            let t = [
                "2020-01-01T00:00:00", "0000-01-01T00:00:00", "9999-12-31T23:59:59", "+10000-01-01T00:00:00", "-0001-12-31T23:59:59",
                "+262143-12-31T23:59:59", "-262144-01-01T00:00:00", "+262142-12-31T23:59:60", "-262143-01-01T00:00:00", "+2147483647-01-01T00:00:00",
                "-99999999999-01-01T00:00:00", "2016-12-31T23:59:60.999999999",
            ][sym::pick(12, "time")];
            format!("{}{}", t, o)
        }
        _ => {
            // two digits of a usual time
            let mut v = b"2009-02-13T23:31:30Z".to_vec();
            let at = [0, 2, 5, 8, 11, 14, 17][sym::pick(7, "at")];
            v[at] = sym::u8v("ten");
            v[at + 1] = sym::u8v("one");
            sym::assume(v[at].is_ascii_digit() & v[at + 1].is_ascii_digit());
            String::from_utf8(v).unwrap()
        }
    };
    match sym::pick(2, "place") {
        0 => document("Meta", "RecycleBinChanged", b"", v.as_bytes()),
        _ => document("Root/Group/Entry/Times", "ExpiryTime", b"", v.as_bytes()),
    }
}
/// Open a document with one value; whatever it is, there is an answer.
fn document(path: &str, tag: &str, attrs: &[u8], v: &[u8]) {
    let mut x = b"<KeePassFile>".to_vec();
    for t in path.split('/') {
        x.extend(b"<");
        x.extend(t.as_bytes());
        x.extend(b">");
    }
    x.extend(b"<");
    x.extend(tag.as_bytes());
    x.extend(attrs);
    x.extend(b">");
    x.extend(v);
    x.extend(b"</");
    x.extend(tag.as_bytes());
    x.extend(b">");
    for t in path.rsplit('/') {
        x.extend(b"</");
        x.extend(t.as_bytes());
        x.extend(b">");
    }
    x.extend(b"</KeePassFile>");
    let p = Params::new();
    let _ = try_open(p.file(&key32(), &x));
    sym::reach(1);
}
/// Attributes with arbitrary content, protected values of arbitrary bytes.
pub fn h_bad_attr() {
    let v = sym::bytes(if sym::tier() > 0 { 2 } else { 1 }, "value");
    let q = |a: &str| kdbx::cat(&[b" ", a.as_bytes(), b"=\"", &v, b"\""]);
    let t = |a: &str| kdbx::cat(&[b" ", a.as_bytes(), b"=\"Tru", &v, b"\""]);
    match sym::pick(8, "what") {
        0 => document("Meta/Binaries", "Binary", &q("ID"), b"AAAA"),
        1 => document("Meta/Binaries", "Binary", &kdbx::cat(&[b" ID=\"0\"", &t("Compressed")]), b"AAAA"),
        2 => document("Meta/Binaries", "Binary", &kdbx::cat(&[b" ID=\"0\"", &t("Protected")]), b"AAAA"),
        3 => document("Root/Group/Entry/String", "Value", &t("Protected"), b"AAAA"),
        4 => document("Root/Group/Entry/String", "Value", &t("ProtectInMemory"), b"AAAA"),
        5 => document("Root/Group/Entry/Binary", "Value", &q("Ref"), b""),
        6 => document("Root/Group/Entry/String", "Value", b" Protected=\"True\"", &kdbx::b64(&v)),
        _ => document("Meta/Binaries", "Binary", b" ID=\"0\" Compressed=\"True\"", &kdbx::b64(&v)),
    }
}
/// Elements in the wrong places, missing, repeated, empty, or cut off anywhere.
pub fn h_bad_structure() {
    let p = Params::new();
    let d = {
        let mut d = tiny();
        let mut e = full_entry(1);
        e.set_password("secret");
        e.history.push(full_entry(2));
        e.binaries.insert(BinaryKey("k".into()), BinaryValue::Plain(vec![1]));
        d.binaries.insert(BinaryId("0".into()), vec![1]);
        d.custom_icons.insert(CustomIconUuid(uu(3)), vec![1]);
        d.custom_data.insert("k".into(), "v".into());
        let mut g = full_group(4);
        g.entries.push(e);
        d.root_group.groups.push(g);
        d
    };
    let s = Style::default();
    let mut t = s.tree(&d, None);
    let mut n = 0;
    count(&t, &mut n);
    let k = sym::pick(n as u32, "element");
    let what = sym::pick(5, "what");
    let mut i = 0;
    change(&mut t, &mut i, k, what);
    let x = s.xml(&t, &p.stream_key);
    let _ = try_open(p.file(&key32(), &x));
    sym::reach(1);
}
fn count(n: &kdbx::Node, c: &mut usize) {
    *c += 1;
    for k in &n.kids {
        count(k, c);
    }
}
fn change(n: &mut kdbx::Node, i: &mut usize, at: usize, what: usize) {
    if *i == at {
        match what {
            0 => {
                n.kids.clear();
                n.text.clear();
            }
            1 => {
                let c = n.clone();
                n.text.clear();
                n.kids.push(c);
            }
            2 => n.tag = "Group".into(),
            3 => {
                n.kids.truncate(1);
                n.text = b"x".to_vec();
                n.attrs.clear();
            }
            _ => {
                if let Some(k) = n.kids.first().cloned() {
                    n.kids.push(k);
                } else {
                    n.tag = "Entry".into();
                }
            }
        }
        *i += 1_000_000;
        return;
    }
    *i += 1;
    for k in n.kids.iter_mut() {
        change(k, i, at, what);
    }
}
/// A document that ends anywhere.
pub fn h_bad_end() {
    let p = Params::new();
    let mut x = b"<?xml version=\"1.0\"?><KeePassFile><Meta><DatabaseName>n</DatabaseName><Color>#112233</Color><MasterKeyChanged>".to_vec();
    x.extend(iso(&at(1_000_000_000)));
    x.extend(b"</MasterKeyChanged><Binaries><Binary ID=\"0\" Compressed=\"True\"/></Binaries></Meta><Root><Group><Name>&lt;</Name><Entry><String><Key>k</Key><Value Protected=\"True\">AAAA</Value></String></Entry></Group></Root></KeePassFile>");
    let k = sym::pick(x.len() as u32, "cut");
    x.truncate(k);
    expect(try_open(p.file(&key32(), &x)).is_err(), "half a document does not open");
    sym::reach(1);
}
