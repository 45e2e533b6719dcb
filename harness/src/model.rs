//! Filling and comparing entries, groups and whole databases.
use crate::gen::*;
use crate::sym;
use kpdb::*;

pub fn assoc(w: &str, k: &str) -> Association {
    Association { window: w.into(), keystroke_sequence: k.into() }
}
/// An entry all of whose fields differ from the defaults and from each other.
pub fn full_entry(n: u8) -> Entry {
    let mut e = Entry::new();
    let i = n as i64 * 20;
    e.uuid = EntryUuid(uu(n));
    e.associations = vec![assoc(&format!("win{}a", n), &format!("key{}a", n)), assoc(&format!("win{}b", n), &format!("key{}b", n))];
    e.auto_type_def_sequence = format!("seq{}", n);
    e.auto_type_enabled = n % 2 == 0;
    e.auto_type_obfuscation = if n % 2 == 1 { Obfuscation::UseClipboard } else { Obfuscation::None };
    e.background_color = Some(Color { red: n, green: n ^ 0x11, blue: n ^ 0x22 });
    e.foreground_color = Some(Color { red: n ^ 0x33, green: n ^ 0x44, blue: n ^ 0x55 });
    e.creation_time = tm(i + 1);
    e.expiry_time = tm(i + 2);
    e.last_accessed = tm(i + 3);
    e.last_modified = tm(i + 4);
    e.location_changed = tm(i + 5);
    e.custom_icon_uuid = Some(CustomIconUuid(uu(n ^ 0x80)));
    e.expires = n % 2 == 0;
    e.icon = if n % 2 == 0 { Icon::World } else { Icon::Printer };
    e.override_url = format!("over{}", n);
    e.tags = format!("tag{};x", n);
    e.usage_count = 100 + n as i32;
    e
}
pub fn full_group(n: u8) -> Group {
    let mut g = Group::new(format!("group{}", n));
    let i = n as i64 * 20 + 10;
    g.uuid = GroupUuid(uu(n));
    g.creation_time = tm(i + 1);
    g.expiry_time = tm(i + 2);
    g.last_accessed = tm(i + 3);
    g.last_modified = tm(i + 4);
    g.location_changed = tm(i + 5);
    g.custom_icon_uuid = Some(CustomIconUuid(uu(n ^ 0x40)));
    g.def_auto_type_sequence = format!("gseq{}", n);
    g.enable_auto_type = Some(n % 2 == 0);
    g.enable_searching = Some(n % 2 == 1);
    g.expires = n % 2 == 0;
    g.icon = if n % 2 == 0 { Icon::Email } else { Icon::Disk };
    g.is_expanded = n % 2 == 1;
    g.last_top_visible_entry = EntryUuid(uu(n ^ 0x20));
    g.notes = format!("notes{}", n);
    g.usage_count = 200 + n as i32;
    g
}

pub fn same_strings(a: &StringsMap, b: &StringsMap) {
    sym::check(a.len() == b.len(), "the number of strings");
    for (k, v) in a {
        match (v, b.get(k)) {
            (StringValue::Plain(x), Some(StringValue::Plain(y))) => sym::check(x == y, "string value"),
            (StringValue::Protected(x), Some(StringValue::Protected(y))) => {
                sym::check(x.unsecure() == y.unsecure(), "protected string value")
            }
            (_, None) => sym::check(false, "string key"),
            _ => sym::check(false, "string protection"),
        }
    }
}
pub fn same_binaries(a: &Entry, b: &Entry) {
    sym::check(a.binaries.len() == b.binaries.len(), "the number of binaries");
    for (k, v) in &a.binaries {
        match (v, b.binaries.get(k)) {
            (BinaryValue::Plain(x), Some(BinaryValue::Plain(y))) => sym::check(x == y, "binary value"),
            (BinaryValue::Ref(x), Some(BinaryValue::Ref(y))) => sym::check(x == y, "binary reference"),
            (BinaryValue::Protected(x), Some(BinaryValue::Protected(y))) => {
                sym::check(x.unsecure() == y.unsecure(), "protected binary value")
            }
            (_, None) => sym::check(false, "binary key"),
            _ => sym::check(false, "binary protection"),
        }
    }
}
/// Everything of an entry except the link to its group and its history.
pub fn same_entry_fields(a: &Entry, b: &Entry) {
    sym::check(a.uuid == b.uuid, "entry uuid");
    sym::check(a.associations.len() == b.associations.len(), "the number of associations");
    for (x, y) in a.associations.iter().zip(b.associations.iter()) {
        sym::check(x.window == y.window, "association window");
        sym::check(x.keystroke_sequence == y.keystroke_sequence, "association keystroke_sequence");
    }
    sym::check(a.auto_type_def_sequence == b.auto_type_def_sequence, "auto_type_def_sequence");
    sym::check(a.auto_type_enabled == b.auto_type_enabled, "auto_type_enabled");
    sym::check(a.auto_type_obfuscation == b.auto_type_obfuscation, "auto_type_obfuscation");
    sym::check(a.background_color == b.background_color, "background_color");
    sym::check(a.foreground_color == b.foreground_color, "foreground_color");
    sym::check(a.creation_time == b.creation_time, "entry creation_time");
    sym::check(a.expiry_time == b.expiry_time, "entry expiry_time");
    sym::check(a.last_accessed == b.last_accessed, "entry last_accessed");
    sym::check(a.last_modified == b.last_modified, "entry last_modified");
    sym::check(a.location_changed == b.location_changed, "entry location_changed");
    sym::check(a.custom_icon_uuid == b.custom_icon_uuid, "entry custom_icon_uuid");
    sym::check(a.expires == b.expires, "entry expires");
    sym::check(a.icon == b.icon, "entry icon");
    sym::check(a.override_url == b.override_url, "override_url");
    sym::check(a.tags == b.tags, "tags");
    sym::check(a.usage_count == b.usage_count, "entry usage_count");
    same_strings(&a.strings, &b.strings);
    same_binaries(a, b);
}
pub fn same_entry(a: &Entry, b: &Entry) {
    same_entry_fields(a, b);
    sym::check(a.history.len() == b.history.len(), "the number of history entries");
    for (x, y) in a.history.iter().zip(b.history.iter()) {
        same_entry_fields(x, y);
    }
}
pub fn same_group_fields(a: &Group, b: &Group) {
    sym::check(a.uuid == b.uuid, "group uuid");
    sym::check(a.name == b.name, "group name");
    sym::check(a.notes == b.notes, "group notes");
    sym::check(a.creation_time == b.creation_time, "group creation_time");
    sym::check(a.expiry_time == b.expiry_time, "group expiry_time");
    sym::check(a.last_accessed == b.last_accessed, "group last_accessed");
    sym::check(a.last_modified == b.last_modified, "group last_modified");
    sym::check(a.location_changed == b.location_changed, "group location_changed");
    sym::check(a.custom_icon_uuid == b.custom_icon_uuid, "group custom_icon_uuid");
    sym::check(a.def_auto_type_sequence == b.def_auto_type_sequence, "def_auto_type_sequence");
    sym::check(a.enable_auto_type == b.enable_auto_type, "enable_auto_type");
    sym::check(a.enable_searching == b.enable_searching, "enable_searching");
    sym::check(a.expires == b.expires, "group expires");
    sym::check(a.icon == b.icon, "group icon");
    sym::check(a.is_expanded == b.is_expanded, "is_expanded");
    sym::check(a.last_top_visible_entry == b.last_top_visible_entry, "last_top_visible_entry");
    sym::check(a.usage_count == b.usage_count, "group usage_count");
}
/// Two trees of groups, in order; `b` came out of a file and carries links.
pub fn same_group(a: &Group, b: &Group) {
    same_group_fields(a, b);
    sym::check(a.entries.len() == b.entries.len(), "the number of entries");
    for (x, y) in a.entries.iter().zip(b.entries.iter()) {
        same_entry(x, y);
        sym::check(y.parent == a.uuid, "the parent of an entry is its group");
    }
    sym::check(a.groups.len() == b.groups.len(), "the number of groups");
    for (x, y) in a.groups.iter().zip(b.groups.iter()) {
        same_group(x, y);
        sym::check(y.parent == a.uuid, "the parent of a group is the group it is in");
    }
}
pub fn same_maps(a: &Database, b: &Database) {
    sym::check(a.binaries.len() == b.binaries.len(), "the number of shared binaries");
    for (k, v) in &a.binaries {
        match b.binaries.get(k) {
            Some(w) => sym::check(v == w, "shared binary"),
            None => sym::check(false, "shared binary id"),
        }
    }
    sym::check(a.custom_data.len() == b.custom_data.len(), "the number of custom data items");
    for (k, v) in &a.custom_data {
        match b.custom_data.get(k) {
            Some(w) => sym::check(v == w, "custom data value"),
            None => sym::check(false, "custom data key"),
        }
    }
    sym::check(a.custom_icons.len() == b.custom_icons.len(), "the number of custom icons");
    for (k, v) in &a.custom_icons {
        match b.custom_icons.get(k) {
            Some(w) => sym::check(v == w, "custom icon data"),
            None => sym::check(false, "custom icon uuid"),
        }
    }
}
/// A database that was saved and the one that was read back.
pub fn same_db(a: &Database, b: &Database) {
    crate::meta::same_meta(a, b);
    same_maps(a, b);
    same_group(&a.root_group, &b.root_group);
    sym::check(b.root_group.parent == GroupUuid::nil(), "the root group has no parent");
}
