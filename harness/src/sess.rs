//! Histories: databases opened, edited and saved over and over; contents of
//! all sizes; what is printed about files that do not open.
use crate::conform::conforms;
use crate::doc::Style;
use crate::gen::*;
use crate::kdbx::{self, Params};
use crate::model::*;
use crate::strings::value;
use crate::sym;
use kpdb::*;
use secstr::SecStr;
use std::io::Cursor;

fn key32() -> [u8; 32] {
    kdbx::password_key(PW.as_bytes())
}
/// A small database with some of everything, symbolic values here and there.
fn rich(symbolic: bool) -> Database {
    let text = |n: usize, name: &str| if symbolic { plain(n, name) } else { "abc"[..n].to_string() };
    let mut d = db();
    d.name = text(2, "name");
    d.color = Some(Color { red: 1, green: 2, blue: 3 });
    d.comment = Some(Comment(b"comment".to_vec()));
    d.transform_rounds = TransformRounds(2);
    d.recycle_bin_uuid = GroupUuid(uu(55));
    d.history_max_items = 3;
    d.binaries.insert(BinaryId("0".into()), b"shared".to_vec());
    d.binaries.insert(BinaryId("1".into()), b"unused".to_vec());
    d.custom_icons.insert(CustomIconUuid(uu(200)), b"icon".to_vec());
    d.custom_data.insert("key".into(), "value".into());
    let mut e = full_entry(1);
    e.set_title(text(2, "title"));
    e.set_password(text(1, "pw"));
    e.binaries.insert(BinaryKey("a".into()), BinaryValue::Ref(BinaryId("0".into())));
    let mut h = full_entry(1);
    h.set_password("old");
    e.history.push(h);
    let mut g = full_group(10);
    let mut f = full_entry(2);
    f.set_notes("notes");
    f.strings.insert(StringKey::Username, value(text(1, "user"), true));
    f.binaries.insert(BinaryKey("b".into()), BinaryValue::Protected(SecStr::from("bin")));
    g.add_entry(f);
    g.add_group(full_group(11));
    d.root_group.add_entry(e);
    d.root_group.add_group(g);
    d
}
const EDITS: u32 = 24;
/// One change a user might make, with text `t`.
fn edit(d: &mut Database, k: usize, t: &str) {
    fn first(d: &mut Database) -> Option<&mut Entry> {
        for g in d.root_group.iter_mut() {
            if !g.entries.is_empty() {
                return Some(&mut g.entries[0]);
            }
        }
        None
    }
    match k {
        0 => d.name = t.into(),
        1 => {
            let mut e = full_entry(5);
            e.set_password(t);
            d.root_group.add_entry(e);
        }
        2 => {
            let mut e = full_entry(6);
            e.set_title(t);
            for g in d.root_group.groups.iter_mut() {
                g.add_entry(e.clone());
                e.uuid = EntryUuid(uu(66));
            }
        }
        3 => {
            // keep the old state in the history, as KeePass does
            if let Some(e) = first(d) {
                let mut old = e.clone();
                old.history.clear();
                e.history.push(old);
                e.set_password(t);
            }
        }
        4 => {
            if let Some(e) = first(d) {
                e.history.clear();
            }
        }
        5 => {
            let _ = d.root_group.remove_entry(EntryUuid(uu(1)));
        }
        6 => {
            // moved to another group
            if let Some(e) = d.root_group.remove_entry(EntryUuid(uu(1))) {
                if let Some(g) = d.get_group_mut(GroupUuid(uu(11))) {
                    g.add_entry(e);
                }
            }
        }
        7 => {
            if let Some(g) = d.root_group.remove_group(GroupUuid(uu(10))) {
                let mut h = full_group(12);
                h.notes = t.into();
                h.add_group(g);
                d.root_group.add_group(h);
            }
        }
        8 => {
            let _ = d.root_group.remove_group(GroupUuid(uu(10)));
        }
        9 => {
            d.binaries.insert(BinaryId("2".into()), t.into());
            if let Some(e) = first(d) {
                e.binaries.insert(BinaryKey("new".into()), BinaryValue::Ref(BinaryId("2".into())));
            }
        }
        10 => {
            d.binaries.remove(&BinaryId("0".into()));
        }
        11 => {
            if let Some(e) = first(d) {
                e.binaries.clear();
                e.strings.insert(StringKey::Other("extra".into()), value(t.into(), true));
            }
        }
        12 => {
            // plain becomes protected and the other way round
            for g in d.root_group.iter_mut() {
                for e in g.entries.iter_mut() {
                    for v in e.strings.values_mut() {
                        *v = match v {
                            StringValue::Plain(s) => value(s.clone(), true),
                            StringValue::Protected(s) => value(String::from_utf8(s.unsecure().to_vec()).unwrap(), false),
                        };
                    }
                }
            }
        }
        13 => d.comment = None,
        14 => d.comment = Some(Comment(t.into())),
        15 => {
            d.protect_title = !d.protect_title;
            d.protect_password = !d.protect_password;
            d.transform_rounds = TransformRounds(d.transform_rounds.0 + 1);
        }
        16 => {
            d.custom_icons.insert(CustomIconUuid(uu(201)), t.into());
            if let Some(e) = first(d) {
                e.custom_icon_uuid = Some(CustomIconUuid(uu(201)));
            }
        }
        17 => {
            d.custom_data.insert("key".into(), t.into());
            d.custom_data.insert("two".into(), String::new());
        }
        18 => {
            d.custom_data.clear();
            d.custom_icons.clear();
        }
        19 => {
            for e in d.find_entries_mut("notes") {
                e.set_notes(t);
                e.strings.remove(&StringKey::Username);
            }
        }
        20 => {
            if let Some(e) = first(d) {
                e.associations.push(assoc(t, ""));
                e.background_color = None;
                e.custom_icon_uuid = None;
                e.set_expires(true);
                e.set_usage_count(-7);
            }
        }
        21 => {
            for g in d.root_group.iter_mut() {
                g.enable_searching = None;
                g.is_expanded = !g.is_expanded;
                g.groups.reverse();
                g.entries.reverse();
            }
        }
        22 => {
            if let Some(e) = first(d) {
                e.strings.clear();
                e.associations.clear();
                e.tags = t.into();
            }
        }
        _ => {
            d.color = None;
            d.version = Version { major: 3, minor: 0 };
            d.root_group.name = t.into();
        }
    }
}
/// Two edits with arbitrary text, except in values that are stored encrypted or in base64.
fn texts(k: usize, l: usize) -> (String, String) {
    const SECRET: [usize; 6] = [1, 3, 9, 11, 14, 16];
    let one = |k: usize, l: usize, name: &str| if SECRET.contains(&k) || l == 12 { "xy".into() } else { plain(2, name) };
    (one(k, l, "text-1"), one(l, 0, "text-2"))
}
/// What another program wrote, relayed unchanged: what is saved says the same.
pub fn h_sess_relay() {
    let mut d = rich(true);
    let k = sym::pick(6, "style");
    let s = match k {
        0 => Style::default(),
        1 => Style { reverse: true, bools: 1, prolog: 1, pool: 2, ..Style::default() },
        2 => Style { space: 1, unknown: true, pool: 3, ..Style::default() },
        3 => Style { sparse: true, long: true, escape: 1, pool: 1, ..Style::default() },
        4 => Style { space: 2, upper: true, escape: 2, prolog: 2, ..Style::default() },
        _ => Style { in_memory: true, bools: 2, ..Style::default() },
    };
    let _ = &mut d;
    let mut p = Params::new();
    p.rounds = 2;
    p.comment = Some(b"comment".to_vec());
    let b = open(s.file(&d, &p, &key32()));
    let f = save(&b);
    conforms(&d, &f, &key32());
    // and once more
    let c = open(f);
    conforms(&d, &save(&c), &key32());
    sym::reach(1);
}
/// Open, edit, save, open, edit, save, open.
pub fn h_sess_edits() {
    let mut d = rich(false);
    let mut b = open(save(&d));
    let k = sym::pick(EDITS, "edit-1");
    let l = if sym::tier() > 0 { sym::pick(EDITS, "edit-2") } else { [(k * 5 + 12) % 24, (k * 7 + 3) % 24][sym::pick(2, "edit-2")] };
    let (t, u) = texts(k, l);
    edit(&mut d, k, &t);
    edit(&mut b, k, &t);
    let mut b = open(save(&b));
    edit(&mut d, l, &u);
    edit(&mut b, l, &u);
    let b = open(save(&b));
    same_db(&d, &b);
    sym::reach(1);
}
/// Edits of a database that another program wrote, several before one save.
pub fn h_sess_foreign() {
    let mut d = rich(false);
    let s = Style { unknown: true, space: 1, pool: 1, ..Style::default() };
    let mut p = Params::new();
    p.rounds = 2;
    p.comment = Some(b"comment".to_vec());
    let mut b = open(s.file(&d, &p, &key32()));
    b.generator = "rust-kpdb".into();
    let k = sym::pick(EDITS, "edit-1");
    let l = if sym::tier() > 0 { sym::pick(EDITS, "edit-2") } else { [9, 12, 7, 5][sym::pick(4, "edit-2")] };
    let (t, u) = texts(k, l);
    edit(&mut d, k, &t);
    edit(&mut b, k, &t);
    edit(&mut d, l, &u);
    edit(&mut b, l, &u);
    same_db(&d, &open(save(&b)));
    sym::reach(1);
}
/// Saving changes nothing in the database, and saving again stores the same.
pub fn h_sess_same() {
    let mut d = rich(false);
    if sym::pick(2, "compressed") == 1 {
        d = db();
        d.compression = Compression::GZip;
        d.root_group.add_entry(full_entry(1));
    }
    let c = d.clone();
    let f = save(&d);
    sym::check(d == c, "saving leaves the database alone");
    let g = save(&d);
    let (a, b) = (open(f), open(g));
    sym::check(a == b, "two saves store the same");
    sym::check(d == c, "saving again leaves the database alone");
    sym::reach(1);
}
/// Many sessions: nothing is added or lost by the mere passing of time.
pub fn h_sess_many() {
    let d = rich(true);
    let mut f = save(&d);
    let first = f.len();
    for _ in 0..if sym::tier() > 0 { 12 } else { 5 } {
        f = save(&open(f));
        sym::check(f.len() == first, "the size of the file stays");
    }
    same_db(&d, &open(f));
    sym::reach(1);
}

// ------------------------------------------------------------------ all sizes

/// The size of the encrypted document around every boundary of the cipher.
pub fn h_size_payload() {
    let mut d = db();
    d.name = plain(2, "name");
    let base = {
        let o = match kdbx::open(&save(&d), &key32()) {
            Ok(o) => o,
            Err(e) => {
                sym::check(false, e);
                unreachable!()
            }
        };
        o.xml.len()
    };
    // start bytes, block header, document, end of the blocks
    let fixed = 32 + 40 + base + 40;
    let near = [4096usize, 8192, 12288, 16384][sym::pick(if sym::tier() > 0 { 4 } else { 2 }, "near")];
    let off = sym::pick(35, "offset");
    let want = near + off - 17;
    d.description = "d".repeat(want - fixed - 33);
    // the element changes from empty to filled: settle the rest
    let have = |d: &Database| match kdbx::open(&save(d), &key32()) {
        Ok(o) => 112 + o.xml.len(),
        Err(e) => {
            sym::check(false, e);
            unreachable!()
        }
    };
    let h = have(&d);
    let len = d.description.len();
    if h < want {
        d.description = "d".repeat(len + want - h);
    } else {
        d.description = "d".repeat(len - (h - want));
    }
    sym::check(have(&d) == want, "the size aimed at");
    let b = round(&d);
    sym::check(b.name == d.name, "the name");
    sym::check(b.description == d.description, "the description");
    sym::reach(1);
}
/// Protected values of every size up to three blocks of the stream, one after the other.
pub fn h_size_stream() {
    let mut d = db();
    let n = sym::pick(if sym::tier() > 0 { 200 } else { 70 }, "size");
    let n = if n > 66 && sym::tier() == 0 { [127, 128, 129][n - 67] } else { n };
    let mut e = full_entry(1);
    e.strings.insert(StringKey::Notes, value("p".repeat(n), true));
    let mut f = full_entry(2);
    f.strings.insert(StringKey::Notes, value(plain(1, "notes"), true));
    f.binaries.insert(BinaryKey("b".into()), BinaryValue::Protected(SecStr::new(vec![9; n / 2])));
    d.root_group.add_entry(e);
    d.root_group.add_entry(f);
    let f = save(&d);
    conforms(&d, &f, &key32());
    same_db(&d, &open(f));
    sym::reach(1);
}
/// Payloads of more than a million bytes.
pub fn h_size_large() {
    let mut d = db();
    d.name = "tiny".into();
    let k = sym::pick(6, "by");
    if k >= 4 {
        // compressed by this program, and hardly smaller for it
        d.compression = Compression::GZip;
        let n = if sym::tier() > 0 { 1 << 20 } else { 150_000 };
        let mut x = 12345u32;
        let noise: Vec<u8> = (0..n)
            .map(|_| {
                x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                (x >> 24) as u8
            })
            .collect();
        if k == 4 {
            d.description = noise.iter().map(|b| (33 + b % 26 + b / 128 * 31) as char).collect();
        } else {
            d.binaries.insert(BinaryId("0".into()), noise);
        }
        same_db(&d, &round(&d));
    } else if k < 3 {
        let t = "d".repeat(1 << 20);
        let mut e = full_entry(1);
        match k {
            0 => d.description = t,
            1 => e.set_password(t),
            _ => drop(e.binaries.insert(BinaryKey("b".into()), BinaryValue::Plain(vec![0x69; 3 << 18]))),
        }
        e.set_title("title");
        d.root_group.entries.push(e);
        let f = save(&d);
        match kdbx::open(&f, &key32()) {
            Ok(o) => sym::check(o.xml.len() > 1 << 20 && o.xml.len() < (1 << 21) - (1 << 19), "the size of a large document"),
            Err(_) => sym::check(false, "a large document is saved as the format says"),
        }
        same_db(&d, &open(f));
    } else {
        // compressed content in many empty parts, by another program, in one block
        let mut p = Params::new();
        p.compression = 1;
        let z = crate::doc::gzip(b"<KeePassFile><Meta><DatabaseName>tiny</DatabaseName></Meta></KeePassFile>");
        let mut x = z[..10].to_vec();
        for _ in 0..(1 << 20) / 5 + 1 {
            x.extend([0, 0, 0, 0xff, 0xff]);
        }
        x.extend(&z[10..]);
        let f = p.seal(&p.header(), &key32(), &kdbx::cat(&[&p.start, &kdbx::blocks(&[&x])]));
        let b = open(f);
        sym::check(b.name == "tiny", "the texts of a large document of another program");
    }
    sym::reach(1);
}
/// Files of other programs: every number of bytes in a block, every number of blocks.
pub fn h_size_blocks() {
    let mut d = db();
    d.name = plain(2, "name");
    let s = Style::default();
    let p = Params::new();
    let h = p.header();
    let k = sym::pick(if sym::tier() > 0 { 64 } else { 32 }, "size");
    d.description = "d".repeat(k);
    let x = s.xml(&s.tree(&d, None), &p.stream_key);
    let parts: Vec<&[u8]> = match sym::pick(3, "parts") {
        0 => vec![&x],
        1 => x.chunks(x.len() / 2 + k % 7).collect(),
        _ => x.chunks(300 + k).collect(),
    };
    let f = p.seal(&h, &key32(), &kdbx::cat(&[&p.start, &kdbx::blocks(&parts)]));
    let b = open(f);
    sym::check(b.name == d.name && b.description == d.description, "the texts");
    sym::reach(1);
}
/// Compressed content of many sizes, and content that does not compress.
pub fn h_size_gzip() {
    let mut d = db();
    d.compression = Compression::GZip;
    let k = sym::pick(if sym::tier() > 0 { 40 } else { 16 }, "size");
    let n = [0, 1, 2, 3, 100, 1000, 5000, 20000][k % 8] + k / 8;
    let mut x = 12345u32 + k as u32;
    let noise: Vec<u8> = (0..n)
        .map(|_| {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            (x >> 24) as u8
        })
        .collect();
    if sym::pick(2, "kind") == 0 {
        d.binaries.insert(BinaryId("0".into()), noise);
    } else {
        d.description = "ab<&>".repeat(n / 5 + 1);
    }
    let b = round(&d);
    same_db(&d, &b);
    sym::reach(1);
}

// ------------------------------------------------------- errors print no secrets

fn told(secret: &[u8], pw: &str, k: usize) -> String {
    let key = CompositeKey::from_password(pw);
    let mut d = Database::new(&key);
    d.compression = Compression::None;
    d.transform_rounds = TransformRounds(1);
    let mut e = full_entry(1);
    e.creation_time = tm(1);
    for s in [StringKey::Password, StringKey::Notes] {
        e.strings.insert(s, StringValue::Protected(SecStr::from(secret)));
    }
    e.binaries.insert(BinaryKey("b".into()), BinaryValue::Protected(SecStr::from(secret)));
    d.root_group.add_entry(e);
    let s = Style::default();
    let p = Params::new();
    let h = p.header();
    let x32 = kdbx::password_key(pw.as_bytes());
    let mut x = s.xml(&s.tree(&d, None), &p.stream_key);
    let swap = |x: &mut Vec<u8>, a: &[u8], b: &[u8]| {
        let at = (0..x.len() - a.len()).find(|i| &x[*i..*i + a.len()] == a);
        match at {
            Some(i) => {
                x.splice(i..i + a.len(), b.iter().copied());
            }
            None => sym::check(false, "the document to be damaged"),
        }
    };
    match k {
        0 => swap(&mut x, b"</Entry>", b"</Entrz>"),
        1 => swap(&mut x, b"<UsageCount>101<", b"<UsageCount>1x1<"),
        2 => swap(&mut x, b"</Entry>", b"<IconID>x</IconID></Entry>"),
        3 => swap(&mut x, b"</Group>", b"<Times><CreationTime>x</CreationTime></Times></Group>"),
        4 => {
            let n = x.len();
            x.truncate(n - 3)
        }
        _ => {}
    }
    let mut blocks = kdbx::blocks(&[&x]);
    if k == 5 {
        blocks[10] ^= 1;
    }
    if k == 6 {
        blocks[0] = 9;
    }
    let f = p.seal(&h, &x32, &kdbx::cat(&[&p.start, &blocks]));
    let with = if k == 7 { CompositeKey::from_password("something else") } else { key };
    match Database::open(&mut Cursor::new(f), &with) {
        Ok(_) => {
            sym::check(false, "a damaged file is refused");
            unreachable!()
        }
        Err(e) => format!("{} / {:?}", e, e),
    }
}
/// The errors on opening do not depend on the secrets in the file or the password.
pub fn h_print_errors() {
    let k = sym::pick(9, "damage");
    let (x, y) = match k {
        // not UTF-8: nothing is damaged, but it cannot be read
        8 => (vec![0xff, 0x80], kdbx::cat(&[&[0xff], &sym::bytes(1, "secret")])),
        7 => (vec![b'%'], plain(1, "secret").into_bytes()),
        _ => (vec![b'%'], plain(1, "secret").into_bytes()),
    };
    let a = told(&y, "pass", k);
    let b = told(&x, "word", k);
    // a wrong key shows in the padding or, by chance, only in the start bytes
    let other = format!("{} / {:?}", Error::InvalidKey, Error::InvalidKey);
    sym::check(a == b || k == 7 && (a == other || b == other), "errors do not depend on secrets");
    sym::reach(1);
}

/// Nor do the errors on opening a key file depend on the key.
pub fn h_print_keyfile() {
    let digits = |v: &[u8]| -> Vec<u8> { v.iter().flat_map(|b| [b"0123456789abcdef"[*b as usize >> 4], b"0123456789abcdef"[*b as usize & 15]]).collect() };
    let s = sym::bytes(3, "key");
    no_slash(&s);
    for b in &s {
        sym::assume(*b & 0xcc == 0x44);
    }
    let t = [0x45, 0x54, 0x46];
    let k = sym::pick(5, "damage");
    let at = sym::pick(3, "at");
    // the character at which a malformed file cannot be understood is quoted
    sym::assume(k != 1 || at != 0);
    let make = |key: &[u8]| -> Vec<u8> {
        let mut all = vec![0x11u8; 32];
        let n = [0, 14, 28][at];
        all[n..n + 3].copy_from_slice(key);
        let xml = |data: &[u8], end: &[u8]| {
            kdbx::cat(&[b"<KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>", data, b"</Data></Key>", end])
        };
        match k {
            0 => {
                let mut v = digits(&all);
                v[20] = b'x';
                v
            }
            1 => digits(&all)[..62].to_vec(),
            2 => xml(&kdbx::b64(&all), b""),
            3 => {
                let mut v = kdbx::b64(&all);
                v[24] = b'*';
                xml(&v, b"</KeyFile>")
            }
            _ => kdbx::cat(&[b"<KeyFile><Meta><Version>9.00</Version></Meta><Key><Data>", &kdbx::b64(&all), b"</Data></Key></KeyFile>"]),
        }
    };
    let show = |r: Result<KeyFile>| match r {
        Ok(_) => {
            sym::check(false, "a damaged key file is refused");
            unreachable!()
        }
        Err(e) => format!("{} / {:?}", e, e),
    };
    let a = show(KeyFile::open(&mut Cursor::new(make(&s))));
    let b = show(KeyFile::open(&mut Cursor::new(make(&t))));
    sym::check(a == b, "errors do not depend on the key");
    sym::reach(1);
}
