//! Keys, key files and randomness.
use crate::gen::*;
use crate::kdbx::{self, Params};
use crate::sym;
use kpdb::*;
use secstr::SecStr;
use std::io::Cursor;

const XML: &[u8] = b"<KeePassFile><Meta><DatabaseName>tiny</DatabaseName></Meta></KeePassFile>";

fn key_of(kind: usize, pw: &str, key: &[u8]) -> (CompositeKey, [u8; 32]) {
    let kf = KeyFile { key: SecStr::new(key.to_vec()), file_type: KeyFileType::Xml };
    match kind {
        0 => (CompositeKey::from_password(pw), kdbx::password_key(pw.as_bytes())),
        1 => (CompositeKey::from_key_file(kf), kdbx::file_key(key)),
        _ => (CompositeKey::from_both(pw, kf), kdbx::both_key(pw.as_bytes(), key)),
    }
}
/// A password: of one of several lengths, or any text of a few bytes.
fn password() -> String {
    match sym::pick(9, "password") {
        7 => plain(300, "pw"),
        8 => plain(1025, "pw"),
        0 => String::new(),
        1 => "password".into(),
        2 => utf8(2, "pw"),
        3 => plain(31, "pw"),
        4 => plain(64, "pw"),
        5 => plain(119, "pw"),
        _ => utf8(if sym::tier() > 0 { 4 } else { 3 }, "pw"),
    }
}
fn key_bytes() -> Vec<u8> {
    let n = [32usize, 0, 1, 20, 64, 65][sym::pick(6, "key-size")];
    sym::bytes(n, "key")
}
/// The composite key itself.
pub fn h_key_composite() {
    let pw = password();
    let k = key_bytes();
    let (a, x) = key_of(sym::pick(3, "kind"), &pw, &k);
    sym::check(a.unsecure() == x, "the composite key");
    sym::check(a.clone().unsecure() == x, "a copy of the composite key");
    sym::reach(1);
}
/// What was saved is encrypted with the key the format prescribes.
pub fn h_key_saved() {
    sym::aesni(sym::pick(2, "aesni") == 0);
    let (pw, k) = match sym::pick(2, "content") {
        0 => (utf8(2, "pw"), sym::bytes(32, "key")),
        _ => (plain(7, "pw"), sym::bytes(5, "key")),
    };
    let (a, x) = key_of(sym::pick(3, "kind"), &pw, &k);
    let mut d = Database::new(&a);
    d.compression = Compression::None;
    d.name = "tiny".into();
    let rounds = [0u64, 1, 2, 3, 5, 12][sym::pick(6, "rounds")];
    d.transform_rounds = TransformRounds(rounds);
    let f = save(&d);
    match kdbx::open(&f, &x) {
        Ok(o) => {
            sym::check(o.item(6) == rounds.to_le_bytes(), "the rounds");
            sym::check(o.xml.windows(4).any(|w| w == b"tiny"), "the content")
        }
        Err(_) => sym::check(false, "a saved file is encrypted with the key of the format"),
    }
    sym::reach(1);
}
/// Many rounds, a concrete key: the default number, and those around powers of two.
pub fn h_key_rounds() {
    sym::aesni(sym::pick(2, "aesni") == 0);
    let rounds = [256u64, 257, 6000, 65537, 255, 10000, 65535, 65536, 1 << 20, (1 << 20) + 1, 1 << 24][sym::pick(if sym::tier() > 0 { 11 } else { 10 }, "rounds")];
    let mut d = Database::new(&key());
    d.name = "tiny".into();
    d.transform_rounds = TransformRounds(rounds);
    let f = save(&d);
    sym::check(kdbx::open(&f, &kdbx::password_key(PW.as_bytes())).is_ok(), "a saved file is encrypted with the key of the format");
    sym::check(open(f).transform_rounds.0 == rounds, "the rounds");
    sym::reach(1);
}
/// What another program encrypted with that key opens, whatever the seeds.
pub fn h_key_open() {
    sym::aesni(sym::pick(2, "aesni") == 0);
    let (pw, k) = (utf8(2, "pw"), sym::bytes(32, "key"));
    let (a, x) = key_of(sym::pick(3, "kind"), &pw, &k);
    let mut p = Params::new();
    p.rounds = [0u64, 1, 2, 3][sym::pick(4, "rounds")];
    match sym::pick(4, "seed") {
        0 => p.master_seed = sym::arr("seed"),
        1 => p.transform_seed = sym::arr("seed"),
        2 => p.iv = sym::arr("seed"),
        _ => p.start = sym::arr("seed"),
    }
    let f = p.file(&x, XML);
    match Database::open(&mut Cursor::new(f), &a) {
        Ok(d) => {
            sym::check(d.name == "tiny", "the content");
            sym::check(d.composite_key.unsecure() == x, "the database keeps its key");
        }
        Err(_) => sym::check(false, "a file opens with the key of the format"),
    }
    sym::reach(1);
}
/// After a change of the key, the new one is what opens the file.
pub fn h_key_change() {
    let (a, x) = key_of(sym::pick(3, "from"), "old", &[1; 32]);
    let pw = utf8(2, "pw");
    let (b, y) = key_of(sym::pick(3, "to"), &pw, &sym::bytes(32, "key"));
    let mut p = Params::new();
    p.compression = 0;
    let f = p.file(&x, XML);
    let mut d = match Database::open(&mut Cursor::new(f), &a) {
        Ok(d) => d,
        Err(_) => {
            sym::check(false, "a file opens with the key of the format");
            return;
        }
    };
    d.composite_key = b;
    let f = save(&d);
    match kdbx::open(&f, &y) {
        Ok(o) => sym::check(o.xml.windows(4).any(|w| w == b"tiny"), "the content"),
        Err(_) => sym::check(false, "the file is encrypted with the new key"),
    }
    sym::reach(1);
}

/// Where `part` is within `all`, if at exactly one place.
fn find(all: &[u8], part: &[u8]) -> Option<usize> {
    let mut it = (0..(all.len() + 1).saturating_sub(part.len())).filter(|i| &all[*i..*i + part.len()] == part);
    match (it.next(), it.next()) {
        (Some(i), None) => Some(i),
        _ => None,
    }
}
fn fields(f: &[u8]) -> Vec<Vec<u8>> {
    // master seed, transform seed, iv, stream key, start bytes
    let mut v = vec![vec![]; 5];
    let mut at = 12;
    loop {
        let (id, n) = (f[at], f[at + 1] as usize | (f[at + 2] as usize) << 8);
        match id {
            0 => return v,
            4 | 5 => v[id as usize - 4] = f[at + 3..at + 3 + n].to_vec(),
            7 | 8 | 9 => v[id as usize - 5] = f[at + 3..at + 3 + n].to_vec(),
            _ => {}
        }
        at += 3 + n;
    }
}
/// All secrets of a file are drawn for this very save.
pub fn h_fresh_save() {
    let mut p = Params::new();
    let mut d = match sym::pick(3, "origin") {
        0 => db(),
        1 => open(p.file(&kdbx::password_key(PW.as_bytes()), XML)),
        _ => {
            p.rounds = 2;
            let d = open(p.file(&kdbx::password_key(PW.as_bytes()), XML));
            let _ = save(&d);
            d.clone()
        }
    };
    let mut e = Entry::new();
    e.set_password("secret");
    d.root_group.entries.push(e);
    // first with known values, to see which parts of what was drawn are used
    let old = p.items();
    let mut earlier: Vec<Vec<u8>> = vec![];
    let mut offs = vec![];
    for _ in 0..2 {
        sym::record();
        let f = fields(&save(&d));
        let r = sym::recorded();
        offs = f.iter().map(|x| find(&r, x)).collect();
        for (i, x) in f.iter().enumerate() {
            sym::check(x.len() == [32, 32, 16, 32, 32][i], "the size of a secret");
            for y in f[i + 1..].iter().chain(&earlier) {
                sym::check(x[..8] != y[..8], "every save has secrets of its own");
            }
            for (_, y) in &old {
                sym::check(x != y, "the secrets of the opened file are not used again");
            }
            // no visible pattern (in 32 known pseudorandom bytes none occurs)
            sym::check(x.windows(4).all(|w| w.iter().any(|b| *b != w[0])), "no part of a secret is constant");
        }
        earlier.extend(f);
    }
    // then with arbitrary ones
    sym::rng_mode(1);
    sym::record();
    let f = save(&d);
    let r = sym::recorded();
    sym::rng_mode(0);
    let f = fields(&f);
    let mut used = vec![false; r.len()];
    for (i, x) in f.iter().enumerate() {
        if let Some(o) = offs[i] {
            sym::check(o + x.len() <= r.len() && r[o..o + x.len()] == x[..], "a secret is what the random source yields");
            for u in &mut used[o..o + x.len()] {
                sym::check(!*u, "no random value is used twice");
                *u = true;
            }
        }
    }
    sym::reach(1);
}
/// New entries and groups get random version 4 UUIDs of their own, key files random keys.
pub fn h_fresh_uuid() {
    let first = Entry::new();
    let second = Group::new("g");
    let third = Database::new(&key());
    sym::check(first.uuid.0 != second.uuid.0 && second.uuid.0 != third.root_group.uuid.0, "all UUIDs differ");
    let fresh = |k: usize| match k {
        0 => Entry::new().uuid.0,
        1 => Group::new("x").uuid.0,
        2 => Database::new(&key()).root_group.uuid.0,
        3 => EntryUuid::new_random().0,
        _ => GroupUuid::new_random().0,
    };
    let (j, k) = (sym::pick(5, "first"), sym::pick(5, "second"));
    sym::rng_mode(1);
    sym::record();
    let u = fresh(j);
    let r = sym::recorded();
    sym::record();
    let v = fresh(k);
    let s = sym::recorded();
    sym::rng_mode(0);
    for x in [&u, &v] {
        let b = x.as_bytes();
        sym::check(b[6] >> 4 == 4 && b[8] >> 6 == 2, "a UUID of version 4");
    }
    sym::check(r.len() >= 16 && s.len() >= 16, "16 random bytes are drawn for every UUID");
    // two UUIDs are the same only if what was drawn is the same (but for 6 bits)
    sym::assume(u == v);
    let (r, s) = (&r[r.len() - 16..], &s[s.len() - 16..]);
    let mut same = 0u8;
    for i in 0..16 {
        same += (r[i] == s[i]) as u8;
    }
    sym::check(same >= 14, "a UUID carries all of what was drawn");
    sym::reach(1);
}
pub fn h_fresh_key() {
    let old = KeyFile::new().unwrap();
    sym::rng_mode(1);
    sym::record();
    let k = sym::pick(4, "what");
    let f = match k {
        0 => KeyFile::new(),
        1 => KeyFile::new_binary(),
        2 => KeyFile::new_hex(),
        _ => KeyFile::new_xml(),
    };
    sym::rng_mode(0);
    let r = sym::recorded();
    match f {
        Ok(f) => {
            sym::check(f.file_type == [KeyFileType::Xml, KeyFileType::Binary, KeyFileType::Hex, KeyFileType::Xml][k], "the type of a new key file");
            sym::check(f.key.unsecure().len() == 32, "the size of a new key");
            sym::check(r.len() >= 32 && f.key.unsecure() == &r[r.len() - 32..], "a new key is what the random source yields");
        }
        Err(_) => sym::check(false, "a key file is made"),
    }
    sym::check(old.key.unsecure().len() == 32, "the size of a new key");
    sym::reach(1);
}

fn key_file(f: &[u8]) -> Result<KeyFile> {
    KeyFile::open(&mut Cursor::new(f))
}
fn types(k: usize) -> KeyFileType {
    match k {
        0 => KeyFileType::Binary,
        1 => KeyFileType::Hex,
        _ => KeyFileType::Xml,
    }
}
/// A saved key file is one of the format, and opens again.
pub fn h_keyfile_save() {
    let t = sym::pick(3, "type");
    let n = if t == 2 { [32usize, 1, 0, 33, 64, 5][sym::pick(6, "size")] } else { 32 };
    let mut b = sym::bytes(n, "key");
    let reopen = t != 1 || sym::flag("reopen");
    if t == 1 && reopen {
        // reading digits branches on each of them
        let at = sym::pick(32, "at");
        let v = b[at];
        b = (0..32).map(|i| i * 8 + 3).collect();
        b[at] = v;
    }
    if t == 2 {
        no_slash(&b);
    }
    let k = KeyFile { key: SecStr::new(b.clone()), file_type: types(t) };
    let mut f = vec![];
    sym::check(k.save(&mut f).is_ok(), "a key file is saved");
    match t {
        0 => sym::check(f == b, "a binary key file is the key"),
        1 => {
            sym::check(f.len() == 64, "a hexadecimal key file has 64 digits");
            for (i, x) in b.iter().enumerate() {
                let hex = |v: u8| if v < 10 { b'0' + v } else { b'a' + v - 10 };
                sym::check(f[2 * i] | 0x20 == hex(x >> 4) | 0x20 && f[2 * i + 1] | 0x20 == hex(x & 15) | 0x20, "the digits of a hexadecimal key file");
            }
        }
        _ => {
            let doc = match kdbx::parse(&f) {
                Some(d) => d,
                None => {
                    sym::check(false, "an XML key file is XML");
                    return;
                }
            };
            sym::check(doc.tag == "KeyFile" && doc.kids.len() == 2, "the KeyFile element");
            sym::check(doc.need("Meta").need("Version").text == b"1.00", "the version of a key file");
            sym::check(doc.need("Key").need("Data").text == &kdbx::b64(&b)[..], "the data of a key file");
        }
    }
    if !reopen {
        sym::reach(2);
        return;
    }
    match key_file(&f) {
        Ok(o) => sym::check(o.key.unsecure() == &b[..] && o.file_type == types(t), "a key file survives"),
        Err(_) => sym::check(false, "a saved key file opens"),
    }
    sym::reach(1);
}
/// Binary and hexadecimal key files, any bytes of those sizes.
pub fn h_keyfile_raw() {
    match sym::pick(3, "kind") {
        0 => {
            let b = sym::bytes(32, "file");
            match key_file(&b) {
                Ok(o) => sym::check(o.key.unsecure() == &b[..] && o.file_type == KeyFileType::Binary, "a binary key file"),
                Err(_) => sym::check(false, "any 32 bytes are a key file"),
            }
        }
        1 => {
            // digits in any case
            let mut b: Vec<u8> = (0..32).map(|i| i * 8 + 3).collect();
            let at = sym::pick(31, "at");
            b[at..at + 2].copy_from_slice(&sym::bytes(2, "key"));
            let up = sym::bytes(2, "upper");
            let mut f = vec![];
            for (i, x) in b.iter().enumerate() {
                for v in [x >> 4, x & 15] {
                    let l = if up[i & 1] & 1 == 1 { b'A' } else { b'a' };
                    f.push(if v < 10 { b'0' + v } else { l + v - 10 });
                }
            }
            match key_file(&f) {
                Ok(o) => sym::check(o.key.unsecure() == &b[..] && o.file_type == KeyFileType::Hex, "a hexadecimal key file"),
                Err(_) => sym::check(false, "64 digits are a key file"),
            }
        }
        _ => {
            let mut f = b"00112233445566778899aAbBcCdDeEfF00112233445566778899aabbccddeeff".to_vec();
            let at = sym::pick(64, "at");
            let c = sym::u8v("byte");
            f[at] = c;
            let ok = c.is_ascii_hexdigit();
            match key_file(&f) {
                Ok(o) => {
                    sym::check(ok, "64 bytes that are no digits are no key file");
                    let v = if c <= b'9' { c - b'0' } else { (c | 0x20) - b'a' + 10 };
                    let x = o.key.unsecure()[at / 2];
                    sym::check(if at & 1 == 0 { x >> 4 == v } else { x & 15 == v }, "the value of a digit");
                }
                Err(Error::InvalidKeyFile) => sym::check(!ok, "64 digits are a key file"),
                Err(_) => sym::check(false, "the error for an invalid key file"),
            }
        }
    }
    sym::reach(1);
}
/// XML key files as other programs write them.
pub fn h_keyfile_xml() {
    let n = [32usize, 16, 3][sym::pick(3, "size")];
    let b = sym::bytes(n, "key");
    no_slash(&b);
    let e = kdbx::b64(&b);
    let style = sym::pick(7, "style");
    let f = match style {
        5 => kdbx::cat(&[b"<KeyFile><Meta><Version><![CDATA[1.00]]></Version></Meta><Key><Data><![CDATA[", &e, b"]]></Data></Key></KeyFile>"]),
        6 => kdbx::cat(&[b"<KeyFile><Meta><Version>1<!-- c -->.00</Version></Meta><Key><Data>", &e[..2], b"<!-- c -->", &e[2..], b"</Data></Key></KeyFile>"]),
        0 => kdbx::cat(&[b"<?xml version=\"1.0\" encoding=\"utf-8\"?>\r\n<KeyFile>\r\n\t<Meta>\r\n\t\t<Version>1.00</Version>\r\n\t</Meta>\r\n\t<Key>\r\n\t\t<Data>", &e, b"</Data>\r\n\t</Key>\r\n</KeyFile>\r\n"]),
        1 => kdbx::cat(&[b"<KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>", &e, b"</Data></Key></KeyFile>"]),
        2 => kdbx::cat(&[b"<KeyFile><Key><Data>", &e, b"</Data></Key><Meta><Version>1.00</Version></Meta></KeyFile>"]),
        3 => kdbx::cat(&[b"\xef\xbb\xbf<?xml version=\"1.0\" encoding=\"utf-8\"?><!-- c --><KeyFile xmlns:xsi=\"x\"><Meta><Version>1.00</Version></Meta><Key><Data>", &e, b"</Data></Key></KeyFile>"]),
        _ => kdbx::cat(&[b"<KeyFile><Meta><Version>1.00</Version><X>y</X></Meta><Key><Other/><Data>", &e, b"</Data></Key></KeyFile>"]),
    };
    sym::assume(f.len() != 32 && f.len() != 64);
    match key_file(&f) {
        Ok(o) => sym::check(o.key.unsecure() == &b[..] && o.file_type == KeyFileType::Xml, "an XML key file"),
        Err(_) => sym::check(false, "an XML key file opens"),
    }
    sym::reach(1);
}
/// Keys of any size: a key file is refused, or opens as the same key and type.
pub fn h_keyfile_size() {
    let t = types(sym::pick(3, "type"));
    let n = [0usize, 1, 2, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 128, 300][sym::pick(15, "size")];
    let mut b: Vec<u8> = (0..n).map(|i| (i * 8 + 3) as u8).collect();
    let fits = n == 32 || t == KeyFileType::Xml;
    if n > 0 && (t == KeyFileType::Binary || t == KeyFileType::Hex && n == 32) {
        b[n / 2] = sym::u8v("byte");
    }
    let k = KeyFile { key: SecStr::new(b), file_type: t };
    let mut f = vec![];
    match k.save(&mut f) {
        Ok(()) => sym::check(key_file(&f).ok() == Some(k), "a saved key file opens as the same key"),
        Err(Error::InvalidKeyFile) => sym::check(!fits && f.is_empty(), "a key file is saved"),
        Err(_) => sym::check(false, "the error for a key of another size"),
    }
    sym::reach(1);
}
/// What is no key file is refused, without panicking.
pub fn h_keyfile_bad() {
    let good = b"<KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8=</Data></Key></KeyFile>";
    let f: Vec<u8> = match sym::pick(8, "what") {
        0 => sym::bytes(sym::pick(4, "size"), "file"),
        1 => good[..sym::pick(good.len() as u32 - 1, "cut")].to_vec(),
        2 => {
            let v = sym::bytes(4, "version");
            for c in &v {
                sym::assume((*c >= b'.') & (*c <= b'9') & (*c != b'/'));
            }
            sym::assume(v != b"1.00");
            kdbx::cat(&[b"<KeyFile><Meta><Version>", &v, b"</Version></Meta><Key><Data>AAEC</Data></Key></KeyFile>"])
        }
        3 => b"<KeyFile><Meta><Version>1.00</Version></Meta></KeyFile>".to_vec(),
        4 => b"<KeyFile><Meta><Version>1.00</Version></Meta><Key></Key></KeyFile>".to_vec(),
        5 => b"<Other><Meta><Version>1.00</Version></Meta><Key><Data>AAEC</Data></Key></Other>".to_vec(),
        6 => {
            // one character of the data that is none of base64
            let mut v = good.to_vec();
            let at = v.windows(6).position(|w| w == b"<Data>").unwrap() + 6 + sym::pick(8, "at");
            let c = sym::u8v("byte");
            sym::assume(!(c.is_ascii_alphanumeric() | (c == b'+') | (c == b'/') | (c == b'<') | (c == b'&') | (c == b'=')));
            v[at] = c;
            v
        }
        _ => {
            // a structure that does not end
            let mut v = good.to_vec();
            let at = v.windows(9).position(|w| w == b"</KeyFile").unwrap();
            v.truncate(at);
            v.extend([&b"</Key>"[..], b"<!--", b"</Meta>", b"<Key>"][sym::pick(4, "end")]);
            v
        }
    };
    sym::assume(f.len() != 32 && f.len() != 64);
    match key_file(&f) {
        Ok(o) => {
            // blanks between the digits are not part of them
            sym::check(o.key.unsecure().len() == 32 && o.key.unsecure()[..] != [0u8; 32], "what is no key file is refused");
            sym::check(false, "what is no key file is refused")
        }
        Err(_) => {}
    }
    sym::reach(1);
}
