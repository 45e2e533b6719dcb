//! Entries survive a save and an open.
use crate::gen::*;
use crate::model::*;
use crate::sym;
use kpdb::*;

fn holding(e: Entry) -> Database {
    let mut d = db();
    d.root_group.entries.push(e);
    d
}
fn finish(d: Database) {
    let b = round(&d);
    same_db(&d, &b);
    sym::reach(1);
}
fn arbitrary(n: u8) -> Entry {
    let mut e = full_entry(n);
    e.associations = vec![assoc(&plain(3, "w1"), &plain(3, "k1")), assoc(&plain(2, "w2"), &plain(2, "k2"))];
    e.auto_type_def_sequence = plain(3, "seq");
    e.override_url = plain(3, "url");
    e.tags = plain(3, "tags");
    e.usage_count = num3("usage");
    e.uuid = EntryUuid(uuid16("uuid"));
    e.custom_icon_uuid = Some(CustomIconUuid(uuid16("icon")));
    e.creation_time = tod("t1");
    e.background_color = Some(color("bg"));
    e
}
/// An entry with two earlier versions, every field arbitrary within its class.
pub fn h_entry_all() {
    let mut e = arbitrary(1);
    e.history = vec![full_entry(2), arbitrary(3)];
    finish(holding(e));
}
/// One text field at a time, arbitrary text.
pub fn h_entry_text() {
    let mut e = full_entry(1);
    let s = text(if sym::tier() > 0 { 3 } else { 2 }, "text");
    match sym::pick(5, "field") {
        0 => e.override_url = s,
        1 => e.tags = s,
        2 => e.auto_type_def_sequence = s,
        3 => e.associations[1].window = s,
        _ => e.associations[0].keystroke_sequence = s,
    }
    finish(holding(e));
}
pub fn h_entry_num() {
    let mut e = full_entry(1);
    e.usage_count = num("n");
    finish(holding(e));
}
pub fn h_entry_time() {
    let mut e = full_entry(1);
    let f = sym::pick(5, "field");
    let v = if f == 0 && sym::tier() > 0 { time("t") } else { tod("t") };
    match f {
        0 => e.creation_time = v,
        1 => e.expiry_time = v,
        2 => e.last_accessed = v,
        3 => e.last_modified = v,
        _ => e.location_changed = v,
    }
    finish(holding(e));
}
pub fn h_entry_icon() {
    let mut e = full_entry(1);
    let n = sym::pick(69, "icon");
    match Icon::from_i32(n as i32) {
        Ok(i) => e.icon = i,
        Err(_) => sym::check(false, "icon code"),
    }
    e.auto_type_obfuscation = if n % 2 == 0 { Obfuscation::None } else { Obfuscation::UseClipboard };
    finish(holding(e));
}
/// What may be absent or empty.
pub fn h_entry_opt() {
    let mut e = full_entry(1);
    match sym::pick(12, "which") {
        0 => e.background_color = None,
        1 => e.foreground_color = None,
        2 => e.custom_icon_uuid = None,
        3 => e.associations.clear(),
        4 => e.associations.push(assoc("", "")),
        5 => e.associations[0].window = String::new(),
        6 => e.associations[1].keystroke_sequence = String::new(),
        7 => {
            e.override_url = String::new();
            e.tags = String::new();
            e.auto_type_def_sequence = String::new();
        }
        8 => e.uuid = EntryUuid::nil(),
        9 => e.auto_type_enabled = !e.auto_type_enabled,
        10 => e.expires = !e.expires,
        _ => e = Entry::default(),
    }
    if sym::tier() > 0 {
        e.background_color = Some(color("bg"));
        e.foreground_color = Some(color("fg"));
    }
    finish(holding(e));
}
/// From no to three earlier versions, with strings and binaries of their own.
pub fn h_entry_history() {
    let n = sym::pick(4, "versions");
    let mut e = full_entry(1);
    e.set_title("now");
    e.set_password("pw now");
    for i in 0..n {
        let mut h = full_entry(10 + i as u8);
        h.uuid = e.uuid;
        h.set_title(plain(3, "title"));
        if i != 1 {
            h.strings.insert(StringKey::Password, StringValue::new(plain(4, "pw"), true));
        }
        if i == 1 {
            h.binaries.insert(BinaryKey("att".into()), BinaryValue::Plain(sym::bytes(1, "att")));
        }
        e.history.push(h);
    }
    e.binaries.insert(BinaryKey("att".into()), BinaryValue::Ref(BinaryId("7".into())));
    let mut d = holding(e);
    d.root_group.entries.push(full_entry(50));
    finish(d);
}
/// Versions, associations and entries that agree in everything, or in all but one thing.
pub fn h_entry_twins() {
    let mut e = full_entry(1);
    e.associations[1] = e.associations[0].clone();
    e.set_title("t");
    let h = e.clone();
    for i in 0..3 {
        let mut h = h.clone();
        match sym::pick(5, "differs") {
            0 => {}
            1 => h.set_title(format!("t{}", i)),
            2 => h.last_modified = tm(900 + i),
            3 => h.uuid = EntryUuid(uu(90 + i as u8)),
            _ => h.usage_count = num3("n"),
        }
        e.history.push(h);
    }
    let mut d = holding(e.clone());
    d.root_group.entries.push(e);
    finish(d);
}
