//! Many of everything, and texts that mean something to XML, base64 or people.
use crate::conform::conforms;

use crate::gen::*;
use crate::kdbx::{self, Params};
use crate::model::*;
use crate::strings::value;
use crate::sym;
use kpdb::*;
use secstr::SecStr;

fn key32() -> [u8; 32] {
    kdbx::password_key(PW.as_bytes())
}
fn round_trip(d: Database) {
    let b = round(&d);
    same_db(&d, &b);
    sym::reach(1);
}
fn written(d: Database) {
    let f = save(&d);
    conforms(&d, &f, &key32());
    sym::reach(1);
}
fn from_others(d: Database, k: usize) {
    let mut d = d;
    d.generator = "other".into();
    let mut b = open(crate::reading::style(k).file(&d, &Params::new(), &key32()));
    b.generator = "rust-kpdb".into();
    same_db(&d, &b);
    sym::reach(1);
}

const HARD: [&str; 36] = [
    "]]>",
    "<![CDATA[x]]>",
    "&amp;",
    "&amp;lt;b&gt;",
    "&#65;&#x42;",
    "<!-- x -->",
    "-->",
    "<?xml version=\"1.0\"?>",
    "</Value><Value>",
    "  two  spaces  ",
    " ",
    "\n",
    "a\n\nb\n",
    "\ttab\t",
    "a;b,c d",
    "\"quoted\" 'single'",
    "\u{feff}bom",
    "e\u{301}a\u{308}",
    "\u{e9}\u{e4}",
    "\u{1f511}\u{10ffff}",
    "\u{85}\u{2028}\u{a0}\u{3000}",
    "\u{fffd}\u{fffc}\u{e000}",
    "%41+%20",
    "{REF:P@I:0123}{USERNAME}",
    "\\n\\x41\\",
    "http://a.b/?a=b&c=d#e",
    "True",
    "null",
    "0",
    "-1",
    "QUJD",
    "====",
    "\u{130}\u{df}\u{3a3}",
    "x\u{301}\u{302}\u{303}\u{304}",
    "\u{200b}\u{200e}\u{202e}",
    "#ffeedd",
];
/// A database of which every text (in one part, or in all) is `t`; ids of binaries, being in attributes, without white space.
fn all(t: &str, part: usize) -> Database {
    let mut d = db();
    crate::meta::distinct(&mut d);
    let on = |p: usize| part == p || part == 9;
    let id: String = t.chars().map(|c| if c == '\n' || c == '\t' { '_' } else { c }).collect();
    if on(0) {
        d.name = t.into();
        d.description = t.into();
        d.def_username = t.into();
    }
    if on(4) {
        d.custom_data.insert(t.into(), "1".into());
        d.custom_data.insert("key".into(), t.into());
        d.binaries.insert(BinaryId(id.clone()), vec![1]);
    }
    let entry = |n: u8| {
        let mut e = full_entry(n);
        if on(1) {
            e.override_url = t.into();
            e.tags = t.into();
            e.auto_type_def_sequence = t.into();
            e.associations = vec![assoc(t, "k"), assoc("w", t)];
        }
        if on(3) {
            for (i, k) in [StringKey::Notes, StringKey::Password, StringKey::Title, StringKey::Url, StringKey::Username].iter().enumerate() {
                e.strings.insert(k.clone(), value(t.into(), (i + n as usize) % 2 == 0));
            }
            e.strings.insert(StringKey::Other(t.into()), value("other".into(), n % 2 == 0));
            e.strings.insert(StringKey::Other("protected".into()), value(t.into(), true));
        }
        if on(4) {
            e.binaries.insert(BinaryKey(t.into()), BinaryValue::Plain(vec![2]));
            e.binaries.insert(BinaryKey("ref".into()), BinaryValue::Ref(BinaryId(id.clone())));
            e.binaries.insert(BinaryKey("prot".into()), BinaryValue::Protected(SecStr::new(t.as_bytes().to_vec())));
        }
        e
    };
    let mut g = full_group(30);
    if on(2) {
        d.root_group = full_group(31);
        d.root_group.name = t.into();
        g.name = t.into();
        g.notes = t.into();
        g.def_auto_type_sequence = t.into();
    }
    if part != 0 && part != 2 {
        let mut e = entry(1);
        e.history = vec![entry(2)];
        g.entries.push(e);
        d.root_group.entries.push(entry(4));
    }
    d.root_group.groups.push(g);
    d
}
fn hard(part: usize) -> (Database, usize) {
    let k = sym::pick(HARD.len() as u32, "text");
    // followed by any letter, unless white space is the point
    let t = if HARD[k].trim().is_empty() { HARD[k].to_string() } else { HARD[k].to_string() + &plain(1, "last") };
    (all(&t, part), k)
}
pub fn h_hard_meta() {
    round_trip(hard(0).0);
}
pub fn h_hard_entry() {
    round_trip(hard(1).0);
}
pub fn h_hard_group() {
    round_trip(hard(2).0);
}
pub fn h_hard_str() {
    round_trip(hard(3).0);
}
pub fn h_hard_bin() {
    round_trip(hard(4).0);
}
pub fn h_hard_conf() {
    written(hard(9).0);
}
pub fn h_hard_read() {
    let (d, k) = hard(9);
    from_others(d, k % 8);
}

/// Long histories, whatever limits the settings name.
fn versions() -> Database {
    let mut d = db();
    let n = [10usize, 11, 40][sym::pick(3, "versions")];
    let (items, size, days) = [(10, 6291456, 365), (0, 0, 0), (1, 1, 1), (-1, -1, -1), (5, 6291456, 3)][sym::pick(5, "limits")];
    d.history_max_items = items;
    d.history_max_size = size;
    d.maintenance_history_days = days;
    let mut e = full_entry(1);
    e.set_title(plain(2, "title"));
    for i in 0..n {
        let mut h = full_entry((i + 2) as u8);
        h.uuid = e.uuid;
        if i == 0 || i == n - 1 {
            h.set_password(plain(2, "pw"));
        } else {
            h.set_password(format!("pw{}", i));
        }
        e.history.push(h);
    }
    let mut g = full_group(30);
    g.entries.push(e);
    d.root_group.groups.push(g);
    d
}
pub fn h_many_versions() {
    round_trip(versions());
}
pub const ENTRY_KINDS: u32 = 5;
pub const TREE_KINDS: u32 = 3;
pub const POOL_KINDS: u32 = 4;
/// What an entry has many of.
fn many_entry(k: usize) -> Database {
    let mut d = db();
    let n = 300;
    let mut e = full_entry(1);
    match k {
        0 => {
            for i in 0..n {
                e.strings.insert(StringKey::Other(format!("k{}", i)), value(format!("v{}", i), i % 3 == 0));
            }
        }
        1 => {
            for i in 0..n {
                let v = match i % 3 {
                    0 => BinaryValue::Ref(BinaryId(i.to_string())),
                    1 => BinaryValue::Plain(vec![i as u8, (i >> 8) as u8]),
                    _ => BinaryValue::Protected(SecStr::new(vec![i as u8, (i >> 8) as u8])),
                };
                e.binaries.insert(BinaryKey(format!("b{}", i)), v);
            }
        }
        2 => {
            e.associations.clear();
            for i in 0..n {
                e.associations.push(assoc(&format!("w{}", i), &format!("k{}", i)));
            }
        }
        3 => {
            for i in 0..n {
                let mut h = Entry::default();
                h.usage_count = i;
                h.set_password(format!("pw{}", i));
                e.history.push(h);
            }
        }
        _ => {
            let long = |c: &str| c.repeat(70001);
            e.set_notes(long("n"));
            e.set_password(long("p"));
            e.tags = long("t");
            e.strings.insert(StringKey::Other("k".repeat(300)), value("v".into(), true));
        }
    }
    e.override_url = plain(2, "url");
    d.root_group.entries.push(e);
    d.root_group.entries.push(full_entry(2));
    d
}
/// What a tree has many of.
fn many_tree(k: usize) -> Database {
    let mut d = db();
    match k {
        0 => {
            for i in 0..300 {
                let mut e = Entry::default();
                e.usage_count = i;
                if i % 7 == 0 {
                    e.set_password(format!("pw{}", i));
                }
                d.root_group.entries.push(e);
            }
        }
        1 => {
            for i in 0..300 {
                let mut g = Group::default();
                g.usage_count = i;
                g.uuid = GroupUuid(uu(i as u8));
                if i % 60 == 0 {
                    g.entries.push(full_entry(i as u8));
                }
                d.root_group.groups.push(g);
            }
        }
        _ => {
            let mut g = full_group(1);
            g.name = plain(2, "leaf");
            for i in 0..80 {
                let mut o = Group::default();
                o.uuid = GroupUuid(uu(i + 2));
                o.usage_count = i as i32;
                if i % 10 == 0 {
                    o.entries.push(full_entry(i));
                }
                o.groups.push(g);
                g = o;
            }
            d.root_group.groups.push(g);
        }
    }
    d.root_group.notes = plain(2, "notes");
    d
}
/// What the meta data has many of.
fn many_pool(k: usize) -> Database {
    let mut d = db();
    for i in 0..300usize {
        match k {
            0 if i < 20 => drop(d.binaries.insert(BinaryId(i.to_string()), vec![i as u8; i])),
            1 => drop(d.custom_icons.insert(CustomIconUuid(uuid::Uuid::from_u128(0x1234_0000_0000_0000_0000_0000_0005 + (i as u128 * 77))), vec![i as u8, 1])),
            2 => drop(d.custom_data.insert(format!("k{}", i), format!("v{}", i))),
            _ => {}
        }
    }
    if k == 3 {
        d.custom_data.insert("long".into(), "d".repeat(70001));
        d.custom_icons.insert(CustomIconUuid(uu(1)), vec![7; 66000]);
    }
    d.name = plain(2, "name");
    d
}
pub fn h_many_entry() {
    round_trip(many_entry(sym::pick(ENTRY_KINDS, "kind")));
}
pub fn h_many_tree() {
    round_trip(many_tree(sym::pick(TREE_KINDS, "kind")));
}
pub fn h_many_pool() {
    round_trip(many_pool(sym::pick(POOL_KINDS, "kind")));
}
fn any_many() -> (Database, usize) {
    let k = sym::pick(ENTRY_KINDS + TREE_KINDS + POOL_KINDS, "kind");
    let (a, b) = (ENTRY_KINDS as usize, TREE_KINDS as usize);
    let d = if k < a {
        many_entry(k)
    } else if k < a + b {
        many_tree(k - a)
    } else {
        many_pool(k - a - b)
    };
    (d, k)
}
pub fn h_many_conf() {
    written(any_many().0);
}
pub fn h_many_read() {
    let (d, k) = any_many();
    from_others(d, if k < (ENTRY_KINDS + TREE_KINDS) as usize { 0 } else { 4 });
}
