//! Database-level settings survive a save and an open.
use crate::gen::*;
use crate::sym;
use chrono::{TimeZone, Utc};
use kpdb::*;

/// Compare everything but the tree, field by field.
pub fn same_meta(a: &Database, b: &Database) {
    sym::check(a.name == b.name, "name");
    sym::check(a.name_changed == b.name_changed, "name_changed");
    sym::check(a.description == b.description, "description");
    sym::check(a.description_changed == b.description_changed, "description_changed");
    sym::check(a.def_username == b.def_username, "def_username");
    sym::check(a.def_username_changed == b.def_username_changed, "def_username_changed");
    sym::check(a.color == b.color, "color");
    sym::check(a.entry_templates_group_uuid == b.entry_templates_group_uuid, "entry_templates_group_uuid");
    sym::check(a.entry_templates_group_changed == b.entry_templates_group_changed, "entry_templates_group_changed");
    sym::check(a.history_max_items == b.history_max_items, "history_max_items");
    sym::check(a.history_max_size == b.history_max_size, "history_max_size");
    sym::check(a.last_selected_group == b.last_selected_group, "last_selected_group");
    sym::check(a.last_top_visible_group == b.last_top_visible_group, "last_top_visible_group");
    sym::check(a.maintenance_history_days == b.maintenance_history_days, "maintenance_history_days");
    sym::check(a.master_key_change_force == b.master_key_change_force, "master_key_change_force");
    sym::check(a.master_key_change_rec == b.master_key_change_rec, "master_key_change_rec");
    sym::check(a.master_key_changed == b.master_key_changed, "master_key_changed");
    sym::check(a.protect_notes == b.protect_notes, "protect_notes");
    sym::check(a.protect_password == b.protect_password, "protect_password");
    sym::check(a.protect_title == b.protect_title, "protect_title");
    sym::check(a.protect_url == b.protect_url, "protect_url");
    sym::check(a.protect_username == b.protect_username, "protect_username");
    sym::check(a.recycle_bin_changed == b.recycle_bin_changed, "recycle_bin_changed");
    sym::check(a.recycle_bin_enabled == b.recycle_bin_enabled, "recycle_bin_enabled");
    sym::check(a.recycle_bin_uuid == b.recycle_bin_uuid, "recycle_bin_uuid");
    sym::check(b.generator == "rust-kpdb", "generator");
}
pub fn same_header(a: &Database, b: &Database) {
    sym::check(a.comment == b.comment, "comment");
    sym::check(a.composite_key == b.composite_key, "composite_key");
    sym::check(a.compression == b.compression, "compression");
    sym::check(a.db_type == b.db_type, "db_type");
    sym::check(a.master_cipher == b.master_cipher, "master_cipher");
    sym::check(a.stream_cipher == b.stream_cipher, "stream_cipher");
    sym::check(a.transform_rounds == b.transform_rounds, "transform_rounds");
    sym::check(a.version == b.version, "version");
}
pub fn flags(d: &mut Database, v: u32) {
    d.protect_notes = v & 1 != 0;
    d.protect_password = v & 2 != 0;
    d.protect_title = v & 4 != 0;
    d.protect_url = v & 8 != 0;
    d.protect_username = v & 16 != 0;
    d.recycle_bin_enabled = v & 32 != 0;
}
/// Every setting distinct and concrete.
pub fn distinct(d: &mut Database) {
    d.name = "the name".into();
    d.description = "the description".into();
    d.def_username = "the user".into();
    d.name_changed = tm(1);
    d.description_changed = tm(2);
    d.def_username_changed = tm(3);
    d.entry_templates_group_changed = tm(4);
    d.master_key_changed = tm(5);
    d.recycle_bin_changed = tm(6);
    d.entry_templates_group_uuid = GroupUuid(uu(1));
    d.last_selected_group = GroupUuid(uu(2));
    d.last_top_visible_group = GroupUuid(uu(3));
    d.recycle_bin_uuid = GroupUuid(uu(4));
    d.history_max_items = 11;
    d.history_max_size = 222;
    d.maintenance_history_days = 3333;
    d.master_key_change_force = -4;
    d.master_key_change_rec = -55;
    d.color = Some(Color { red: 1, green: 2, blue: 3 });
}

/// All texts, numbers and identifiers at once, every one arbitrary in its class.
pub fn h_meta_all() {
    let mut d = db();
    distinct(&mut d);
    d.name = plain(3, "name");
    d.description = plain(3, "description");
    d.def_username = plain(3, "def_username");
    d.history_max_items = num3("n1");
    d.history_max_size = num3("n2");
    d.maintenance_history_days = num3("n3");
    d.master_key_change_force = num3("n4");
    d.master_key_change_rec = num3("n5");
    d.entry_templates_group_uuid = GroupUuid(uuid16("u1"));
    d.last_selected_group = GroupUuid(uuid16("u2"));
    d.last_top_visible_group = GroupUuid(uuid16("u3"));
    d.recycle_bin_uuid = GroupUuid(uuid16("u4"));
    // every combination of the flags: two arbitrary ones, the others one at a time
    let k = sym::pick(8, "flags");
    flags(&mut d, if k == 7 { 63 } else if k == 6 { 0 } else { 1 << k });
    let e = round(&d);
    same_meta(&d, &e);
    sym::check(d.generator == e.generator, "generator");
    sym::reach(1);
}
/// One text field at a time, arbitrary text.
pub fn h_meta_text() {
    let mut d = db();
    distinct(&mut d);
    let n = if sym::tier() > 0 { 3 } else { 2 };
    let s = text(n, "text");
    match sym::pick(3, "field") {
        0 => d.name = s,
        1 => d.description = s,
        _ => d.def_username = s,
    }
    let e = round(&d);
    same_meta(&d, &e);
    sym::reach(1);
}
/// Texts of every length from empty to longer than any buffer in between.
pub fn h_meta_long() {
    let mut d = db();
    distinct(&mut d);
    let n = [0usize, 1, 47, 5000][sym::pick(4, "len")];
    let mut s = String::new();
    while s.len() < n {
        s.push((b'a' + (s.len() % 26) as u8) as char);
    }
    if n >= 2 {
        s.pop();
        s += &plain(1, "last");
    }
    d.name = s.clone();
    d.description = s.clone();
    d.def_username = s;
    let e = round(&d);
    same_meta(&d, &e);
    sym::reach(1);
}
pub fn h_meta_num() {
    let mut d = db();
    distinct(&mut d);
    let f = sym::pick(5, "field");
    let v = num("n");
    match f {
        0 => d.history_max_items = v,
        1 => d.history_max_size = v,
        2 => d.maintenance_history_days = v,
        3 => d.master_key_change_force = v,
        _ => d.master_key_change_rec = v,
    }
    let e = round(&d);
    same_meta(&d, &e);
    sym::reach(1);
}
pub fn h_meta_time() {
    let mut d = db();
    distinct(&mut d);
    let f = sym::pick(6, "field");
    let v = if f == 0 { time("t") } else { tod("t") };
    match f {
        0 => d.name_changed = v,
        1 => d.description_changed = v,
        2 => d.def_username_changed = v,
        3 => d.entry_templates_group_changed = v,
        4 => d.master_key_changed = v,
        _ => d.recycle_bin_changed = v,
    }
    let e = round(&d);
    same_meta(&d, &e);
    sym::reach(1);
}
/// Fractions of a second: an arbitrary digit at each place, among others.
pub fn h_meta_frac() {
    let mut d = db();
    distinct(&mut d);
    let base = [0u32, 907_000_000, 120_406_000, 120_406_009, 999_999_999][sym::pick(5, "base")];
    let p = [100_000_000u32, 1_000_000, 100_000, 1000, 10, 1][sym::pick(6, "place")];
    let b = sym::u8v("digit");
    sym::assume(b < 10);
    let ns = base - base / p % 10 * p + b as u32 * p;
    let t = Utc.timestamp_opt(1_234_567_890, ns).unwrap();
    d.name_changed = t;
    let mut e = Entry::new();
    e.expiry_time = t;
    d.root_group.entries.push(e);
    let e = round(&d);
    same_meta(&d, &e);
    sym::check(e.root_group.entries[0].expiry_time == t, "entry expiry_time");
    sym::reach(1);
}
pub fn h_meta_uuid() {
    let mut d = db();
    distinct(&mut d);
    let f = sym::pick(4, "field");
    let v = GroupUuid(uuid3("u"));
    match f {
        0 => d.entry_templates_group_uuid = v,
        1 => d.last_selected_group = v,
        2 => d.last_top_visible_group = v,
        _ => d.recycle_bin_uuid = v,
    }
    let e = round(&d);
    same_meta(&d, &e);
    sym::reach(1);
}
pub fn h_meta_color() {
    let mut d = db();
    distinct(&mut d);
    d.color = if sym::pick(2, "some") == 1 { Some(color("c")) } else { None };
    let e = round(&d);
    same_meta(&d, &e);
    sym::reach(1);
}
/// The settings kept in the header.
pub fn h_meta_header() {
    let mut d = db();
    distinct(&mut d);
    let k = sym::pick(4, "comment");
    d.comment = if k == 0 { None } else { Some(Comment(sym::bytes([0, 0, 1, 5][k], "comment"))) };
    d.version = Version { major: u16::from_le_bytes(sym::arr("major")), minor: u16::from_le_bytes(sym::arr("minor")) };
    d.transform_rounds = TransformRounds([0, 1, 2, 7][sym::pick(4, "rounds")]);
    let f = save(&d);
    focus_header(&f);
    let e = open(f);
    same_header(&d, &e);
    same_meta(&d, &e);
    sym::reach(1);
}
/// A compressed database, everything concrete.
pub fn h_meta_gzip() {
    let mut d = db();
    distinct(&mut d);
    d.compression = Compression::GZip;
    d.comment = Some(Comment(vec![1, 2, 3]));
    d.transform_rounds = TransformRounds(257);
    d.name = "x<&>\"' \u{e4}\u{20ac}\u{1f511}".repeat([1, 300][sym::pick(2, "big")]);
    let e = round(&d);
    same_header(&d, &e);
    same_meta(&d, &e);
    sym::reach(1);
}
