//! Files written by other programs are read as the format says.
use crate::doc::{gzip, Style};
use crate::gen::*;
use crate::kdbx::{self, Params};
use crate::model::*;
use crate::sym;
use chrono::{TimeZone, Utc};
use kpdb::*;
use secstr::SecStr;

pub fn style(k: usize) -> Style {
    let d = Style::default();
    match k {
        0 => d,
        1 => Style { reverse: true, bools: 1, prolog: 1, packed: true, ..d },
        2 => Style { space: 1, prolog: 2, bools: 2, upper: true, pool: 1, ..d },
        3 => Style { space: 2, long: true, escape: 1, pool: 2, wrap: 1, packed: true, ..d },
        4 => Style { unknown: true, space: 1, escape: 2, ..d },
        5 => Style { sparse: true, bools: 1, upper: true, pool: 3, ..d },
        6 => Style { reverse: true, unknown: true, space: 1, long: true, pool: 3, wrap: 2, ..d },
        _ => Style { in_memory: true, sparse: true, reverse: true, space: 2, prolog: 2, pool: 1, ..d },
    }
}
const STYLES: u32 = 8;
fn pick_style() -> (Style, usize) {
    let k = sym::pick(STYLES, "style");
    (style(k), k)
}
fn key32() -> [u8; 32] {
    kdbx::password_key(PW.as_bytes())
}
fn check(d: &mut Database, s: &Style) {
    let b = open(s.file(d, &Params::new(), &key32()));
    sym::check(b.generator == d.generator, "the generator");
    compare(d, b);
}
fn compare(d: &Database, mut b: Database) {
    b.generator = "rust-kpdb".into();
    same_db(d, &b);
    sym::reach(1);
}

/// Settings, arbitrary values, in every style.
pub fn h_read_meta() {
    let mut d = db();
    crate::meta::distinct(&mut d);
    let (s, k) = pick_style();
    d.generator = plain(2, "generator");
    d.name = plain(2, "name");
    d.description = if k % 2 == 0 { String::new() } else { plain(2, "description") };
    d.def_username = plain(2, "user");
    d.history_max_items = num3("n1");
    d.history_max_size = num3("n2");
    d.maintenance_history_days = num3("n3");
    d.master_key_change_force = num3("n4");
    d.master_key_change_rec = num3("n5");
    d.name_changed = tod("t1");
    d.recycle_bin_changed = tod("t2");
    d.recycle_bin_uuid = GroupUuid(uuid16("u1"));
    d.last_selected_group = GroupUuid(uuid16("u2"));
    d.color = if k % 3 == 1 { None } else { Some(color("c")) };
    crate::meta::flags(&mut d, [0, 1, 2, 4, 8, 16, 32, 63][sym::pick(8, "flags")]);
    check(&mut d, &s);
}
pub fn h_read_entry() {
    let mut d = db();
    let (s, k) = pick_style();
    let mut e = full_entry(k as u8);
    e.override_url = plain(2, "url");
    e.tags = if k % 2 == 0 { plain(2, "tags") } else { String::new() };
    e.usage_count = num3("n");
    e.uuid = EntryUuid(uuid16("u"));
    e.expiry_time = tod("t");
    e.foreground_color = Some(color("fg"));
    e.background_color = if k % 2 == 0 { None } else { Some(color("bg")) };
    e.associations[0] = assoc(&plain(2, "w"), "");
    e.set_title(plain(2, "title"));
    e.set_username("");
    e.set_password(plain(2, "pw"));
    e.set_other(StringKey::Other("other".into()), plain(2, "other"));
    e.strings.insert(StringKey::Notes, StringValue::new("", true));
    e.binaries.insert(BinaryKey("plain".into()), BinaryValue::Plain({
        let b = sym::bytes(3, "bin");
        no_slash(&b);
        b
    }));
    e.binaries.insert(BinaryKey("prot".into()), BinaryValue::Protected(SecStr::new(sym::bytes(1, "pbin"))));
    e.binaries.insert(BinaryKey("ref".into()), BinaryValue::Ref(BinaryId(plain(1, "id"))));
    e.custom_icon_uuid = if k % 3 == 0 { None } else { Some(CustomIconUuid(uuid16("icon"))) };
    let mut h = e.clone();
    h.set_password("older");
    for i in 0..sym::pick(3, "history") {
        h.last_modified = tm(i as i64);
        e.history.push(h.clone());
    }
    d.root_group.entries.push(e);
    d.root_group.entries.push(h);
    check(&mut d, &s);
}
pub fn h_read_tree() {
    let mut d = db();
    let (s, k) = pick_style();
    crate::tree::any_tree(&mut d.root_group, 1 + k % 3);
    fn fill(g: &mut Group, k: &mut u8) {
        *k += 1;
        g.name = plain(1, "name");
        g.usage_count = num3("n");
        g.notes = if *k % 2 == 0 { plain(2, "notes") } else { String::new() };
        g.enable_auto_type = [None, Some(true), Some(false)][*k as usize % 3];
        g.enable_searching = [Some(true), None, Some(false)][*k as usize % 3];
        for i in 0..*k % 3 {
            let mut e = full_entry(*k * 3 + i);
            e.set_password(format!("pw{}", *k + i));
            g.entries.push(e);
        }
        for s in g.groups.iter_mut() {
            fill(s, k);
        }
    }
    let mut n = k as u8;
    fill(&mut d.root_group, &mut n);
    check(&mut d, &s);
}
/// Shared binaries, icons and custom data in every style.
pub fn h_read_pool() {
    let mut d = db();
    let (s, _) = pick_style();
    let data = |s: &Style, name: &str| {
        if s.pool == 0 {
            b"compressed content".to_vec()
        } else {
            let b = sym::bytes(if s.pool == 3 { 1 } else { 3 }, name);
            no_slash(&b);
            b
        }
    };
    d.binaries.insert(BinaryId("0".into()), data(&s, "b0"));
    d.binaries.insert(BinaryId(plain(1, "id")), data(&s, "b1"));
    d.binaries.insert(BinaryId("empty".into()), vec![]);
    let b = sym::bytes(3, "icon");
    no_slash(&b);
    d.custom_icons.insert(CustomIconUuid(uuid16("u")), b);
    d.custom_icons.insert(CustomIconUuid(uu(7)), vec![]);
    d.custom_data.insert(plain(2, "key"), plain(2, "value"));
    d.custom_data.insert("k".into(), String::new());
    let mut e = full_entry(1);
    e.set_password(plain(2, "pw"));
    e.binaries.insert(BinaryKey("a".into()), BinaryValue::Ref(BinaryId("0".into())));
    e.binaries.insert(BinaryKey("b".into()), BinaryValue::Plain(b"more than twenty bytes, more than twenty".to_vec()));
    d.root_group.entries.push(e);
    check(&mut d, &s);
}
/// One arbitrary text, escaped in each of the ways XML has.
pub fn h_read_text() {
    let mut d = db();
    let k = sym::pick(9, "place");
    let s = Style { escape: k as u8 % 3, wrap: (k > 5) as u8 * 2, ..Style::default() };
    let t = text(if sym::tier() > 0 || k < 1 { 2 } else { 1 }, "text");
    let mut e = full_entry(1);
    match [0, 0, 0, 1, 2, 3, 0, 1, 2][k] {
        0 => d.name = t,
        1 => e.set_title(t),
        2 => d.root_group.notes = t,
        _ => e.tags = t,
    }
    d.root_group.entries.push(e);
    check(&mut d, &s);
}
/// Every second of many days, in the notation of the format.
pub fn h_read_time() {
    let mut d = db();
    const DAYS: [&str; 10] = [
        "1970-01-01", "1969-12-31", "2000-02-29", "2018-01-01", "2020-12-31", "1900-02-28", "9999-12-31", "0001-01-01", "2038-01-19", "1600-03-01",
    ];
    let day = DAYS[sym::pick(DAYS.len() as u32, "day")];
    let n = |a: usize, b: usize| day[a..b].parse::<u32>().unwrap();
    let b = sym::arr::<3>("time");
    sym::assume((b[0] < 24) & (b[1] < 60) & (b[2] < 60));
    let mut t = day.as_bytes().to_vec();
    for i in 0..3 {
        t.push(b"T::"[i]);
        t.push(b'0' + b[i] / 10);
        t.push(b'0' + b[i] % 10);
    }
    t.push(b'Z');
    let want = match Utc.with_ymd_and_hms(n(0, 4) as i32, n(5, 7), n(8, 10), b[0] as u32, b[1] as u32, b[2] as u32) {
        chrono::LocalResult::Single(t) => t,
        _ => unreachable!(),
    };
    let p = Params::new();
    let s = Style::default();
    let mut x = s.tree(&d, None);
    x.kids[0].kids.iter_mut().find(|k| k.tag == "MasterKeyChanged").unwrap().text = t;
    let b = open(p.file(&key32(), &s.xml(&x, &p.stream_key)));
    d.master_key_changed = want;
    compare(&d, b);
}
pub fn h_read_num() {
    let mut d = db();
    d.history_max_size = num("n");
    check(&mut d, &Style::default());
}

/// The header: fields in any of several orders, an end marker of any size, comments, versions, rounds.
pub fn h_read_header() {
    let mut d = db();
    let mut p = Params::new();
    let c = sym::pick(4, "comment");
    d.comment = if c == 0 { None } else { Some(Comment(sym::bytes([0, 0, 1, 40][c], "comment"))) };
    p.comment = d.comment.as_ref().map(|c| c.0.clone());
    d.version = Version { major: u16::from_le_bytes(sym::arr("major")), minor: u16::from_le_bytes(sym::arr("minor")) };
    p.major = d.version.major;
    p.minor = d.version.minor;
    d.transform_rounds = TransformRounds([1, 0, 2, 257][sym::pick(4, "rounds")]);
    p.rounds = d.transform_rounds.0;
    let mut items = p.items();
    match sym::pick(5, "order") {
        0 => {}
        1 => items.reverse(),
        2 => items.rotate_left(4),
        3 => items.swap(1, 7),
        _ => items.sort_by_key(|i| (i.0 * 7) % 11),
    }
    let end = sym::bytes([0usize, 4, 33][sym::pick(3, "end")], "end");
    let h = p.header_of(&items, &end);
    let hash = sym::sha256(&h);
    focus_header(&h);
    let s = Style::default();
    let x = s.xml(&s.tree(&d, Some(&hash)), &p.stream_key);
    let f = p.seal(&h, &key32(), &kdbx::cat(&[&p.start, &kdbx::blocks(&[&x])]));
    compare(&d, open(f));
}
/// The document split into blocks anywhere.
pub fn h_read_blocks() {
    let mut d = db();
    d.name = plain(2, "name");
    let mut e = full_entry(1);
    e.set_password(plain(2, "pw"));
    d.root_group.entries.push(e);
    let p = Params::new();
    let h = p.header();
    let s = Style { prolog: 1, ..Style::default() };
    let x = s.xml(&s.tree(&d, None), &p.stream_key);
    let n = x.len();
    let at = |v: usize| std::cmp::min(n - 1, std::cmp::max(1, v));
    let cut = [1, 2, 15, 16, 17, 63, 64, 100, 500, 1000, n / 2, n - 2, n - 1];
    let a = at(cut[sym::pick(cut.len() as u32, "cut")]);
    let parts: Vec<&[u8]> = match sym::pick(4, "parts") {
        0 => vec![&x[..a], &x[a..]],
        1 => vec![&x[..a / 2 + 1], &x[a / 2 + 1..a + 1], &x[a + 1..]].into_iter().filter(|p| !p.is_empty()).collect(),
        2 => x.chunks(std::cmp::max(a, 100)).collect(),
        _ => vec![&x],
    };
    let f = p.seal(&h, &key32(), &kdbx::cat(&[&p.start, &kdbx::blocks(&parts)]));
    compare(&d, open(f));
}
/// The same with a compressed document (concrete content).
pub fn h_read_gzip() {
    let mut d = db();
    d.compression = Compression::GZip;
    d.name = "name".repeat(400);
    let mut e = full_entry(1);
    e.set_password("password");
    d.root_group.entries.push(e);
    let mut p = Params::new();
    p.compression = 1;
    let h = p.header();
    let s = Style::default();
    let x = s.xml(&s.tree(&d, None), &p.stream_key);
    let k = sym::pick(6, "kind");
    let z = match k {
        4 | 5 => {
            use std::io::Write;
            let level = if k == 4 { flate2::Compression::best() } else { flate2::Compression::none() };
            let mut e = flate2::write::GzEncoder::new(vec![], level);
            e.write_all(&x).unwrap();
            e.finish().unwrap()
        }
        _ => gzip(&x),
    };
    let parts: Vec<&[u8]> = match k {
        0 => vec![&z],
        1 => vec![&z[..5], &z[5..]],
        2 => z.chunks(100).collect(),
        3 => vec![&z[..z.len() - 1], &z[z.len() - 1..]],
        _ => z.chunks(333).collect(),
    };
    let f = p.seal(&h, &key32(), &kdbx::cat(&[&p.start, &kdbx::blocks(&parts)]));
    compare(&d, open(f));
}
