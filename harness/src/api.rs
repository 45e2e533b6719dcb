//! The in-memory interface: conversions, accessors, the tree of groups, lookups.
use crate::gen::*;
use crate::model::*;
use crate::sym;
use kpdb::*;
use secstr::SecStr;
use std::collections::HashMap;

// ---------------------------------------------------------------- conversions

fn digit(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    }
}
/// What a text means as a color, decided byte by byte.
fn color_of(s: &[u8]) -> std::result::Result<Color, ColorError> {
    let n = s.iter().filter(|b| **b & 0xc0 != 0x80).count();
    if n < 7 {
        return Err(ColorError::HexStringTooShort);
    }
    if n > 7 {
        return Err(ColorError::HexStringTooLong);
    }
    if s[0] != b'#' {
        return Err(ColorError::HexStringNoHashSign);
    }
    let part = |i: usize| Some(digit(s[i])? << 4 | digit(s[i + 1])?);
    let red = part(1).ok_or(ColorError::InvalidRedValue)?;
    let green = part(3).ok_or(ColorError::InvalidGreenValue)?;
    let blue = part(5).ok_or(ColorError::InvalidBlueValue)?;
    Ok(Color { red, green, blue })
}
fn same_color(s: &str) {
    match (Color::from_hex_string(s), color_of(s.as_bytes())) {
        (Ok(a), Ok(b)) => sym::check((a.red == b.red) & (a.green == b.green) & (a.blue == b.blue), "the color of a text"),
        (Err(a), Err(b)) => sym::check(a == b, "why a text is no color"),
        (Ok(_), _) => sym::check(false, "a text that is no color is refused"),
        _ => sym::check(false, "a color is accepted"),
    }
    sym::reach(1);
}
/// Any bytes within texts of all lengths.
pub fn h_conv_color_any() {
    let n = sym::pick(11, "length");
    let base = b"#0aF9b3cE1";
    let mut v = base[..n].to_vec();
    let w = if sym::tier() > 0 { 5 } else { 4 }.min(n);
    let at = sym::pick((n - w + 1) as u32, "at");
    v[at..at + w].copy_from_slice(&sym::bytes(w, "text"));
    match String::from_utf8(v) {
        Ok(s) => same_color(&s),
        Err(_) => sym::reach(1),
    }
}
/// Every color is written as six digits and read back.
pub fn h_conv_color_all() {
    let c = color("color");
    let s = c.to_hex_string();
    let b = s.as_bytes();
    sym::check(b.len() == 7 && b[0] == b'#', "the form of a written color");
    const HEX: &[u8; 16] = b"0123456789abcdef";
    let mut ok = true;
    for (i, x) in [c.red, c.green, c.blue].iter().enumerate() {
        let (h, l) = (x >> 4, x & 15);
        let d = |v: u8| v + if v < 10 { b'0' } else { b'a' - 10 };
        ok &= (b[1 + 2 * i] == d(h)) & (b[2 + 2 * i] == d(l));
    }
    sym::check(ok, "the digits of a written color");
    let _ = HEX;
    sym::reach(1);
}
/// Each part of a color is read back, in either case of its digits.
pub fn h_conv_color_back() {
    let i = sym::pick(3, "part");
    let v = sym::u8v("value");
    let mut p = [0x5d, 0xa0, 0x0f];
    p[i] = v;
    let c = Color { red: p[0], green: p[1], blue: p[2] };
    let mut s = c.to_hex_string();
    if sym::pick(2, "upper") == 1 {
        s = s.to_uppercase();
    }
    match Color::from_hex_string(&s) {
        Ok(d) => sym::check(d == c, "a written color is read back"),
        Err(_) => sym::check(false, "a written color is accepted"),
    }
    sym::reach(1);
}
const ICONS: [Icon; 69] = [
    Icon::Key, Icon::World, Icon::Warning, Icon::Server, Icon::MarkedDirectory, Icon::UserCommunication, Icon::Parts, Icon::Notepad,
    Icon::WorldSocket, Icon::Identity, Icon::PaperReady, Icon::Digicam, Icon::IRCommunication, Icon::MultipleKeys, Icon::Energy,
    Icon::Scanner, Icon::WorldStar, Icon::CDRom, Icon::Monitor, Icon::Email, Icon::Configuration, Icon::ClipboardReady, Icon::PaperNew,
    Icon::Screen, Icon::EnergyCareful, Icon::Inbox, Icon::Disk, Icon::Drive, Icon::QuickTime, Icon::EncryptedTerminal, Icon::Console,
    Icon::Printer, Icon::Icons, Icon::Run, Icon::Settings, Icon::WorldComputer, Icon::Archive, Icon::Banking, Icon::Smb, Icon::Clock,
    Icon::EmailSearch, Icon::PaperFlag, Icon::Memory, Icon::RecycleBin, Icon::Note, Icon::Expired, Icon::Info, Icon::Package,
    Icon::Folder, Icon::FolderOpen, Icon::FolderPackage, Icon::LockOpen, Icon::PaperLocked, Icon::Checked, Icon::Pen, Icon::Thumbnail,
    Icon::Book, Icon::Listing, Icon::UserKey, Icon::Tool, Icon::Home, Icon::Star, Icon::Tux, Icon::Feather, Icon::Apple, Icon::Wikipedia,
    Icon::Money, Icon::Certificate, Icon::Phone,
];
/// Any number as an icon or an obfuscation.
pub fn h_conv_number() {
    let n = sym::u32v("number") as i32;
    if sym::pick(2, "what") == 0 {
        match Icon::from_i32(n) {
            Ok(i) => {
                sym::check(i.to_i32() == n, "the number of an icon");
                sym::check((0..69).contains(&n), "numbers of icons");
            }
            Err(_) => sym::check(!(0..69).contains(&n), "an icon is accepted"),
        }
    } else {
        match Obfuscation::from_i32(n) {
            Ok(i) => {
                sym::check(i.to_i32() == n, "the number of an obfuscation");
                sym::check(i == if n == 0 { Obfuscation::None } else { Obfuscation::UseClipboard }, "an obfuscation");
                sym::check((0..2).contains(&n), "numbers of obfuscations");
            }
            Err(_) => sym::check(!(0..2).contains(&n), "an obfuscation is accepted"),
        }
    }
    sym::reach(1);
}
/// Each icon has the number KeePass gives it.
pub fn h_conv_icon() {
    let k = sym::pick(ICONS.len() as u32, "icon");
    sym::check(ICONS[k].to_i32() == k as i32, "KeePass's number of an icon");
    sym::check(Icon::from_i32(k as i32) == Ok(ICONS[k]), "KeePass's icon of a number");
    sym::reach(1);
}
const NAMES: [&str; 5] = ["Notes", "Password", "Title", "URL", "UserName"];
const KEYS: [StringKey; 5] = [StringKey::Notes, StringKey::Password, StringKey::Title, StringKey::Url, StringKey::Username];
fn lower(b: u8) -> u8 {
    b | (((b >= b'A') & (b <= b'Z')) as u8) << 5
}
/// The standard names in any spelling, and names that differ in any byte or two.
pub fn h_conv_key_name() {
    let k = sym::pick(5, "key");
    let mut v = NAMES[k].as_bytes().to_vec();
    match sym::pick(3, "kind") {
        0 => {
            // the case of every letter
            let m = sym::bytes(v.len(), "case");
            for (c, x) in v.iter_mut().zip(&m) {
                *c ^= (x & 1) << 5;
            }
        }
        1 => {
            let at = sym::pick(v.len() as u32, "at");
            v[at] = sym::u8v("byte");
            sym::assume(v[at] < 128);
        }
        _ => {
            let at = sym::pick(v.len() as u32 + 1, "at");
            let w = 1 + sym::pick(3, "extra");
            for x in sym::bytes(w, "byte") {
                v.insert(at, x);
            }
        }
    }
    let s = match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => return sym::reach(1),
    };
    let got = StringKey::from_string(&s);
    let n = NAMES[k].as_bytes();
    let mut same = s.len() == n.len();
    if same {
        for (a, b) in s.as_bytes().iter().zip(n) {
            same &= lower(*a) == lower(*b);
        }
    }
    if same {
        sym::check(got == KEYS[k], "a standard name in any spelling");
        sym::check(got.to_string() == NAMES[k], "the name of a standard key");
    } else {
        match &got {
            StringKey::Other(x) => sym::check(*x == s, "another name is kept as it is"),
            _ => sym::check(false, "another name is not taken for a standard one"),
        }
        sym::check(got.to_string() == s, "the name of another key");
    }
    sym::reach(1);
}

// ------------------------------------------------------------------ accessors

fn read<'a>(e: &'a Entry, k: usize) -> Option<&'a str> {
    match k {
        0 => e.notes(),
        1 => e.password(),
        2 => e.title(),
        3 => e.url(),
        4 => e.username(),
        _ => e.other(StringKey::from_string("one more")),
    }
}
fn key_no(k: usize) -> StringKey {
    if k < 5 {
        KEYS[k].clone()
    } else {
        StringKey::from_string("one more")
    }
}
fn write(e: &mut Entry, k: usize, v: String) {
    match k {
        0 => e.set_notes(v),
        1 => e.set_password(v),
        2 => e.set_title(v),
        3 => e.set_url(v),
        4 => e.set_username(v),
        _ => e.set_other(StringKey::from_string("one more"), v),
    }
}
/// A value is found under its own key only, however similar another one is.
pub fn h_acc_keys() {
    const LIKE: &[&str] = &[
        "Pin", "PIN", "pin", " Pin", "Pin ", "Pi", "Pinn", "Title", "title", "Notes", "URL", "Url", "UserName", "Username", "Password", "",
        " ", "\u{e9}", "e\u{301}", "stra\u{df}e", "strasse", "STRASSE", "\u{131}", "i", "I", "\u{130}", "\u{212a}ey", "key", "Key", "a\0", "a",
    ];
    let get = |n: usize| if n < LIKE.len() { StringKey::Other(LIKE[n].into()) } else { KEYS[n - LIKE.len()].clone() };
    let all = (LIKE.len() + KEYS.len()) as u32;
    let (k, l) = (sym::pick(all, "key"), sym::pick(all, "asked"));
    let mut e = Entry::new();
    let protected = sym::pick(2, "protected") == 1;
    let v = plain(1, "value");
    e.strings.insert(get(k), StringValue::new(v.clone(), protected));
    sym::check(e.other(get(l)) == if k == l { Some(v.as_str()) } else { None }, "a value under its own key only");
    // setting another one changes nothing about the first
    if k != l {
        e.set_other(get(l), "new");
        sym::check(e.other(get(k)) == Some(v.as_str()), "the value of another key is kept");
        sym::check(e.other(get(l)) == Some("new"), "the new value");
        sym::check(e.strings.len() == 2, "two strings");
    }
    sym::reach(1);
}
/// Any sequence of three (four) calls of setters.
pub fn h_acc_strings() {
    let mut e = Entry::new();
    let before = e.clone();
    let mut model: [Option<(String, bool)>; 6] = Default::default();
    let calls = if sym::tier() > 0 { 4 } else { 3 };
    for i in 0..calls {
        let k = sym::pick(6, "key");
        if i == 1 && sym::pick(2, "by") == 1 {
            // the map itself, with the other protection
            let v = utf8(2, "value");
            let p = k != 1;
            e.strings.insert(key_no(k), StringValue::new(v.clone(), p));
            model[k] = Some((v, p));
        } else {
            // the last value may be empty
            let v = if i + 1 == calls && sym::pick(2, "empty") == 1 { String::new() } else { utf8(2, "value") };
            write(&mut e, k, v.clone());
            model[k] = Some((v, k == 1));
        }
    }
    let mut n = 0;
    for k in 0..6 {
        match &model[k] {
            None => {
                sym::check(read(&e, k).is_none(), "no value where none was set");
                sym::check(e.strings.get(&key_no(k)).is_none(), "no string where none was set");
            }
            Some((v, p)) => {
                n += 1;
                sym::check(read(&e, k) == Some(v.as_str()), "the value set last");
                sym::check(e.other(key_no(k)) == Some(v.as_str()), "the value set last, by key");
                match e.strings.get(&key_no(k)) {
                    Some(StringValue::Plain(s)) => sym::check(!*p && s == v, "a value in plain form"),
                    Some(StringValue::Protected(s)) => sym::check(*p && s.unsecure() == v.as_bytes(), "a value in protected form"),
                    None => sym::check(false, "the string set last"),
                }
            }
        }
    }
    sym::check(e.strings.len() == n, "no further strings");
    e.strings = StringsMap::new();
    same_entry(&before, &e);
    sym::reach(1);
}
/// Any bytes in a protected string: text when they are UTF-8.
pub fn h_acc_bytes() {
    let b = sym::bytes(if sym::tier() > 0 { 4 } else { 3 }, "bytes");
    let mut e = Entry::new();
    e.strings.insert(StringKey::Password, StringValue::Protected(SecStr::new(b.clone())));
    match (e.password(), std::str::from_utf8(&b)) {
        (Some(a), Ok(b)) => sym::check(a == b, "a protected text"),
        (None, Err(_)) => {}
        _ => sym::check(false, "protected bytes that are no text"),
    }
    sym::reach(1);
}
fn times_of<T: Times>(x: &mut T) {
    let b = sym::arr::<8>("secs");
    let v = |i: i64| at(1_300_000_000 + i * 77_777 + b[i as usize] as i64);
    x.set_creation_time(v(0));
    x.set_expiry_time(v(1));
    x.set_last_accessed(v(2));
    x.set_last_modified(v(3));
    x.set_location_changed(v(4));
    x.set_expires(b[5] & 1 == 1);
    let n = i32::from_le_bytes([b[6], b[7], b[5], b[0]]);
    x.set_usage_count(n);
    sym::check(x.creation_time() == v(0), "creation_time");
    sym::check(x.expiry_time() == v(1), "expiry_time");
    sym::check(x.last_accessed() == v(2), "last_accessed");
    sym::check(x.last_modified() == v(3), "last_modified");
    sym::check(x.location_changed() == v(4), "location_changed");
    sym::check(x.expires() == (b[5] & 1 == 1), "expires");
    sym::check(x.usage_count() == n, "usage_count");
}
/// The times of entries and groups.
pub fn h_acc_times() {
    if sym::pick(2, "what") == 0 {
        let mut e = full_entry(3);
        times_of(&mut e);
        sym::check(
            e.creation_time == e.creation_time() && e.expiry_time == e.expiry_time() && e.last_accessed == e.last_accessed()
                && e.last_modified == e.last_modified() && e.location_changed == e.location_changed() && e.expires == e.expires()
                && e.usage_count == e.usage_count(),
            "the fields of an entry",
        );
    } else {
        let mut e = full_group(3);
        times_of(&mut e);
        sym::check(
            e.creation_time == e.creation_time() && e.expiry_time == e.expiry_time() && e.last_accessed == e.last_accessed()
                && e.last_modified == e.last_modified() && e.location_changed == e.location_changed() && e.expires == e.expires()
                && e.usage_count == e.usage_count(),
            "the fields of a group",
        );
    }
    sym::reach(1);
}
/// What a new database, group and entry hold, whatever was drawn for their identifiers.
pub fn h_acc_new() {
    sym::rng_mode(1);
    let t = chrono::Utc::now();
    match sym::pick(3, "what") {
        0 => {
            let e = Entry::new();
            let u = chrono::Utc::now();
            for x in [e.creation_time, e.expiry_time, e.last_accessed, e.last_modified, e.location_changed] {
                sym::check(t <= x && x <= u, "the times of a new entry");
            }
            let mut d = Entry::default();
            sym::check(d.uuid == EntryUuid::nil(), "the identifier of a default entry");
            d.uuid = e.uuid;
            d.creation_time = e.creation_time;
            d.expiry_time = e.expiry_time;
            d.last_accessed = e.last_accessed;
            d.last_modified = e.last_modified;
            d.location_changed = e.location_changed;
            same_entry(&d, &e);
            sym::check(e.uuid != EntryUuid::nil(), "a new entry has an identifier");
            sym::check(e.associations.is_empty() && e.binaries.is_empty() && e.strings.is_empty() && e.history.is_empty(), "a new entry is empty");
            sym::check(e.auto_type_enabled && !e.expires && e.usage_count == 0 && e.icon == Icon::Key, "a new entry");
            sym::check(e.auto_type_obfuscation == Obfuscation::None && e.custom_icon_uuid.is_none(), "a new entry");
            sym::check(e.background_color.is_none() && e.foreground_color.is_none(), "a new entry");
            sym::check(e.override_url.is_empty() && e.tags.is_empty() && e.auto_type_def_sequence.is_empty(), "a new entry");
            sym::check(e.parent == GroupUuid::nil(), "a new entry is in no group");
        }
        1 => {
            let name = utf8(3, "name");
            let g = Group::new(name.clone());
            let u = chrono::Utc::now();
            for x in [g.creation_time, g.expiry_time, g.last_accessed, g.last_modified, g.location_changed] {
                sym::check(t <= x && x <= u, "the times of a new group");
            }
            sym::check(g.name == name, "the name of a new group");
            sym::check(g.uuid != GroupUuid::nil(), "a new group has an identifier");
            sym::check(g.entries.is_empty() && g.groups.is_empty() && g.notes.is_empty(), "a new group is empty");
            sym::check(!g.expires && g.is_expanded && g.usage_count == 0 && g.icon == Icon::Folder, "a new group");
            sym::check(g.custom_icon_uuid.is_none() && g.enable_auto_type.is_none() && g.enable_searching.is_none(), "a new group");
            sym::check(g.def_auto_type_sequence.is_empty() && g.last_top_visible_entry == EntryUuid::nil(), "a new group");
            sym::check(g.parent == GroupUuid::nil(), "a new group is in no group");
        }
        _ => {
            let k = CompositeKey::from_password(utf8(2, "pw"));
            let d = Database::new(&k);
            let u = chrono::Utc::now();
            for x in [
                d.def_username_changed, d.description_changed, d.entry_templates_group_changed, d.master_key_changed, d.name_changed,
                d.recycle_bin_changed,
            ] {
                sym::check(t <= x && x <= u, "the times of a new database");
            }
            sym::check(d.composite_key == k, "the key of a new database");
            sym::check(d.compression == Compression::GZip && d.db_type == DbType::Kdb2, "a new database");
            sym::check(d.master_cipher == MasterCipher::Aes256 && d.stream_cipher == StreamCipher::Salsa20, "the ciphers of a new database");
            sym::check(d.transform_rounds == TransformRounds(10000), "the rounds of a new database");
            sym::check(d.version.major == 3 && d.version.minor == 1, "the version of a new database");
            sym::check(d.comment.is_none() && d.color.is_none() && d.name.is_empty() && d.description.is_empty(), "a new database");
            sym::check(d.binaries.is_empty() && d.custom_data.is_empty() && d.custom_icons.is_empty(), "a new database");
            sym::check(d.history_max_items == 10 && d.history_max_size == 6291456, "the history limits of a new database");
            sym::check(d.maintenance_history_days == 365 && d.master_key_change_force == -1 && d.master_key_change_rec == -1, "a new database");
            sym::check(d.protect_password, "a new database protects passwords");
            sym::check(!d.protect_notes && !d.protect_title && !d.protect_url && !d.protect_username, "a new database protects passwords only");
            sym::check(d.recycle_bin_enabled && d.recycle_bin_uuid == GroupUuid::nil(), "the recycle bin of a new database");
            sym::check(d.root_group.name == "Root" && d.root_group.uuid != GroupUuid::nil(), "the root group of a new database");
            sym::check(d.root_group.groups.is_empty() && d.root_group.entries.is_empty(), "a new database has no entries");
        }
    }
    sym::reach(1);
}

// ---------------------------------------------------------- the tree of groups

/// A tree of groups and what is in it, in the order of a breadth-first walk.
fn tree(n: usize) -> Group {
    let mut root = Group::new("root");
    crate::tree::any_tree(&mut root, n);
    root
}
fn breadth<'a>(root: &'a Group) -> Vec<&'a Group> {
    let mut all = vec![root];
    let mut i = 0;
    while i < all.len() {
        let g = all[i];
        for s in &g.groups {
            all.push(s);
        }
        i += 1;
    }
    all
}
/// Groups are walked in breadth, each once; changes made on the way stay.
pub fn h_tree_iter() {
    let n = sym::pick(if sym::tier() > 0 { 7 } else { 6 }, "groups");
    let mut root = tree(n);
    alike(&mut root, sym::pick(3, "identifiers"));
    walk(root, n + 1);
    sym::reach(1);
}
/// The groups of a tree have different identifiers, none, or (but for the root) the same one.
fn alike(root: &mut Group, how: usize) {
    fn set(g: &mut Group, u: uuid::Uuid) {
        g.uuid = GroupUuid(u);
        for e in g.entries.iter_mut() {
            e.uuid = EntryUuid(u);
        }
        for s in g.groups.iter_mut() {
            set(s, u);
        }
    }
    match how {
        0 => {}
        1 => set(root, uuid::Uuid::nil()),
        _ => {
            let u = root.uuid;
            set(root, uu(7));
            root.uuid = u;
        }
    }
}
fn walk(mut root: Group, n: usize) {
    let want = breadth(&root);
    sym::check(want.len() == n, "the number of groups");
    let mut it = root.iter();
    for u in &want {
        match it.next() {
            Some(g) => sym::check(std::ptr::eq(g, *u), "the order of the walk"),
            None => sym::check(false, "the walk reaches every group"),
        }
    }
    sym::check(it.next().is_none(), "the walk ends");
    sym::check(it.next().is_none(), "the walk has ended");
    let want: Vec<*const Group> = want.into_iter().map(|g| g as *const Group).collect();
    let before = root.clone();
    let mut k = 0;
    for g in root.iter_mut() {
        sym::check(k < want.len() && std::ptr::eq(g, want[k]), "the order of the changing walk");
        g.notes = format!("n{}", k);
        k += 1;
    }
    sym::check(k == want.len(), "the changing walk reaches every group");
    for (i, (g, h)) in breadth(&root).into_iter().zip(breadth(&before)).enumerate() {
        sym::check(g.notes == format!("n{}", i), "the change of each group");
        let mut g = g.clone();
        g.notes = h.notes.clone();
        same_group_fields(h, &g);
        sym::check(g.groups.len() == h.groups.len(), "the walk keeps the tree");
    }
}
/// Hundreds of groups side by side, under one another, or both.
fn large(kind: usize, n: usize, each: usize) -> Group {
    let new = |i: usize| {
        let mut g = Group::default();
        g.uuid = GroupUuid(uuid::Uuid::from_u128(0x77_0000_0000_0000_0000 + i as u128));
        g.usage_count = i as i32;
        g.name = format!("g{}", i);
        for j in 0..each {
            let mut e = Entry::default();
            e.uuid = EntryUuid(uuid::Uuid::from_u128(0x88_0000_0000_0000_0000 + (i * each + j) as u128));
            e.usage_count = (i * each + j) as i32;
            g.entries.push(e);
        }
        g
    };
    let mut root = new(0);
    match kind {
        0 => {
            for i in 1..n {
                root.groups.push(new(i));
            }
        }
        1 => {
            let mut g = new(1);
            for i in 2..n {
                let mut o = new(i);
                o.groups.push(g);
                g = o;
            }
            root.groups.push(g);
        }
        _ => {
            let m = n / 4;
            for i in 0..m {
                let mut g = new(4 * i + 1);
                g.groups.push(new(4 * i + 2));
                g.groups.push(new(4 * i + 3));
                g.groups[i % 2].groups.push(new(4 * i + 4));
                root.groups.push(g);
            }
        }
    }
    root
}
pub fn h_tree_large() {
    let mut root = large(sym::pick(3, "kind"), 301, 0);
    alike(&mut root, sym::pick(3, "identifiers"));
    walk(root, 301);
    sym::reach(1);
}
/// Groups added, removed or replaced under the group that is being visited.
pub fn h_tree_iter_change() {
    let n = sym::pick(if sym::tier() > 0 { 6 } else { 5 }, "groups");
    let mut root = tree(n);
    let stop = sym::pick(n as u32 + 1, "where");
    let what = sym::pick(4, "what");
    alike(&mut root, sym::pick(3, "identifiers"));
    let order: Vec<String> = breadth(&root).iter().map(|g| g.name.clone()).collect();
    let mut seen = vec![];
    for (i, g) in root.iter_mut().enumerate() {
        seen.push(g.name.clone());
        if i == stop {
            match what {
                0 => g.groups.clear(),
                1 => g.add_group(full_group(9)),
                2 => {
                    let mut h = full_group(9);
                    h.add_group(full_group(10));
                    *g = h;
                }
                _ => g.groups.reverse(),
            }
        }
    }
    sym::check(seen[..stop + 1] == order[..stop + 1], "groups visited before the change");
    // the change can only affect what lies below the group it was made at
    let after: Vec<String> = breadth(&root).iter().map(|g| g.name.clone()).collect();
    sym::check(after.len() == seen.len(), "the walk sees the changed tree");
    for i in 0..after.len() {
        if i != stop || what != 2 {
            sym::check(after[i] == seen[i], "the walk follows the changed tree");
        }
    }
    sym::reach(1);
}
/// The same with the groups kept: known to be unsound, see known-findings.json.
pub fn h_tree_iter_keep() {
    let mut root = Group::new("root");
    let mut sub = Group::new("sub");
    sub.notes = plain(3, "notes");
    root.add_group(sub);
    let mut all: Vec<&mut Group> = root.iter_mut().collect();
    let other = all.pop();
    all[0].groups.clear();
    if let Some(g) = other {
        sym::observe(g.notes.as_bytes());
    }
    sym::reach(1);
}
/// Entries and groups with one-byte identifiers, in a list.
fn ids(n: usize, name: &str) -> Vec<u8> {
    sym::bytes(n, name)
}
/// Any sequence of additions and removals of entries.
pub fn h_tree_entries() {
    let n = sym::pick(if sym::tier() > 0 { 8 } else { 6 }, "entries");
    let mut g = full_group(1);
    let keep = full_group(2);
    g.add_group(keep.clone());
    let before = g.clone();
    let u = ids(n + 1, "id");
    let mut model = vec![];
    for i in 0..n {
        let mut e = full_entry(i as u8);
        e.uuid = EntryUuid(uu(u[i]));
        model.push(e.clone());
        g.add_entry(e);
    }
    for i in 0..n {
        sym::check(g.entries[i].uuid == model[i].uuid && g.entries[i].tags == model[i].tags, "entries are added at the end");
    }
    let k = EntryUuid(uu(u[n]));
    for again in 0..2 {
        let mut at = None;
        for i in (0..model.len()).rev() {
            if model[i].uuid == k {
                at = Some(i);
            }
        }
        match (g.remove_entry(k), at) {
            (Some(e), Some(i)) => {
                let m = model.remove(i);
                same_entry(&m, &e);
            }
            (None, None) => {}
            (Some(_), None) => sym::check(false, "an entry with another identifier stays"),
            (None, Some(_)) => sym::check(false, "the entry is found"),
        }
        sym::check(g.entries.len() == model.len(), "one entry is removed");
        for (a, b) in model.iter().zip(&g.entries) {
            sym::check(a.uuid == b.uuid && a.tags == b.tags && a.usage_count == b.usage_count, "the other entries stay in order");
        }
        let _ = again;
    }
    g.entries.clear();
    same_group_fields(&before, &g);
    sym::check(g.groups.len() == 1 && g.groups[0].name == keep.name, "the groups are left alone");
    sym::reach(1);
}
/// The same for groups.
pub fn h_tree_groups() {
    let n = sym::pick(if sym::tier() > 0 { 8 } else { 6 }, "subgroups");
    let mut g = full_group(1);
    g.add_entry(full_entry(9));
    let before = g.clone();
    let u = ids(n + 1, "id");
    let mut model = vec![];
    for i in 0..n {
        let mut e = full_group(i as u8 + 10);
        e.uuid = GroupUuid(uu(u[i]));
        let mut below = full_group(i as u8 + 20);
        below.uuid = GroupUuid(uu(u[n]));
        e.add_group(below);
        model.push(e.clone());
        g.add_group(e);
    }
    for i in 0..n {
        sym::check(g.groups[i].uuid == model[i].uuid && g.groups[i].name == model[i].name, "groups are added at the end");
    }
    let k = GroupUuid(uu(u[n]));
    for again in 0..2 {
        let mut at = None;
        for i in (0..model.len()).rev() {
            if model[i].uuid == k {
                at = Some(i);
            }
        }
        match (g.remove_group(k), at) {
            (Some(e), Some(i)) => {
                let m = model.remove(i);
                same_group_fields(&m, &e);
                sym::check(e.groups.len() == 1, "a removed group keeps its groups");
            }
            (None, None) => {}
            (Some(_), None) => sym::check(false, "a group with another identifier stays"),
            (None, Some(_)) => sym::check(false, "the group is found"),
        }
        sym::check(g.groups.len() == model.len(), "one group is removed");
        for (a, b) in model.iter().zip(&g.groups) {
            sym::check(a.uuid == b.uuid && a.name == b.name && b.groups.len() == 1, "the other groups stay in order");
        }
        let _ = again;
    }
    g.groups.clear();
    same_group_fields(&before, &g);
    sym::check(g.entries.len() == 1, "the entries are left alone");
    sym::reach(1);
}

// --------------------------------------------------------------------- lookups

fn grown(n: usize, each: usize) -> Database {
    let mut d = db();
    crate::tree::any_tree(&mut d.root_group, n);
    fn put(g: &mut Group, each: usize, c: &mut u8) {
        for _ in 0..each {
            g.add_entry(full_entry(*c));
            *c += 1;
        }
        for s in g.groups.iter_mut() {
            put(s, each, c);
        }
    }
    put(&mut d.root_group, each, &mut 1);
    d
}
fn all_entries(d: &Database) -> Vec<&Entry> {
    let mut v = vec![];
    for g in breadth(&d.root_group) {
        for e in &g.entries {
            v.push(e);
        }
    }
    v
}
/// Lookups with arbitrary identifiers, some of them equal.
pub fn h_find_id() {
    let n = sym::pick(if sym::tier() > 0 { 6 } else { 5 }, "groups");
    let mut d = grown(n, 1 + (n < 3) as usize);
    // give every group and entry an identifier that may equal another's
    fn mark(g: &mut Group, b: &[u8], c: &mut usize) {
        g.uuid = GroupUuid(uu(b[*c]));
        *c += 1;
        for e in g.entries.iter_mut() {
            e.uuid = EntryUuid(uu(b[*c]));
            *c += 1;
        }
        for s in g.groups.iter_mut() {
            mark(s, b, c);
        }
    }
    let b = ids((n + 1) * 3, "id");
    mark(&mut d.root_group, &b, &mut 0);
    let w = uu(sym::u8v("wanted"));
    if sym::pick(2, "what") == 0 {
        let want = all_entries(&d).into_iter().find(|e| e.uuid == EntryUuid(w)).cloned();
        match (&want, d.get_entry(EntryUuid(w))) {
            (Some(a), Some(b)) => sym::check(a.tags == b.tags && a.uuid == b.uuid && a.usage_count == b.usage_count, "the entry"),
            (None, None) => {}
            (None, _) => sym::check(false, "there is no such entry"),
            _ => sym::check(false, "the entry is found"),
        }
        let untouched = d.clone();
        match (&want, d.get_entry_mut(EntryUuid(w))) {
            (Some(a), Some(b)) => {
                sym::check(a.tags == b.tags && a.uuid == b.uuid && a.usage_count == b.usage_count, "the entry to change");
                b.usage_count = 7777;
            }
            (None, None) => {}
            (None, _) => sym::check(false, "there is no such entry to change"),
            _ => sym::check(false, "the entry to change is found"),
        }
        let (x, y) = (all_entries(&d), all_entries(&untouched));
        let changed = x.iter().zip(&y).filter(|(p, q)| p.usage_count != q.usage_count).count();
        sym::check(changed == want.is_some() as usize, "only that entry changes");
    } else {
        let want = breadth(&d.root_group).into_iter().find(|g| g.uuid == GroupUuid(w)).cloned();
        match (&want, d.get_group(GroupUuid(w))) {
            (Some(a), Some(b)) => sym::check(a.name == b.name && a.uuid == b.uuid && a.usage_count == b.usage_count, "the group"),
            (None, None) => {}
            (None, _) => sym::check(false, "there is no such group"),
            _ => sym::check(false, "the group is found"),
        }
        let untouched = d.clone();
        match (&want, d.get_group_mut(GroupUuid(w))) {
            (Some(a), Some(b)) => {
                sym::check(a.name == b.name && a.uuid == b.uuid && a.usage_count == b.usage_count, "the group to change");
                b.usage_count = 7777;
            }
            (None, None) => {}
            (None, _) => sym::check(false, "there is no such group to change"),
            _ => sym::check(false, "the group to change is found"),
        }
        let (x, y) = (breadth(&d.root_group), breadth(&untouched.root_group));
        let changed = x.iter().zip(&y).filter(|(p, q)| p.usage_count != q.usage_count).count();
        sym::check(changed == want.is_some() as usize, "only that group changes");
    }
    sym::reach(1);
}
/// Whether `a` occurs in `b`, ignoring the case of ASCII letters.
fn occurs(a: &[u8], b: &[u8]) -> bool {
    let mut any = false;
    for i in 0..(b.len() + 1).saturating_sub(a.len()) {
        let mut same = true;
        for j in 0..a.len() {
            same &= lower(a[j]) == lower(b[i + j]);
        }
        any |= same;
    }
    any
}
pub fn ascii(n: usize, name: &str) -> String {
    let b = sym::bytes(n, name);
    for c in &b {
        sym::assume(*c < 128);
    }
    String::from_utf8(b).unwrap()
}
fn which(found: &[&Entry], all: &[&Entry]) -> Vec<bool> {
    // found in the order of the walk
    let mut at = 0;
    let v = all
        .iter()
        .map(|e| {
            let hit = at < found.len() && std::ptr::eq(found[at], *e);
            at += hit as usize;
            hit
        })
        .collect();
    sym::check(at == found.len(), "entries are found in the order of the walk, each once");
    v
}
/// Entries are found by a part of any plain string, whatever the case.
pub fn h_find_entries() {
    let n = sym::pick(3, "groups");
    let mut d = grown(n, 1);
    let k = sym::pick(6, "key");
    alike(&mut d.root_group, if k == 1 { 0 } else { sym::pick(3, "identifiers") });
    let text = ascii(if sym::tier() > 0 { 6 } else { 4 }, "text");
    let wl = sym::pick(if sym::tier() > 0 { 5 } else { 4 }, "length");
    let wanted = ascii(wl, "wanted");
    let protected = sym::pick(2, "protected") == 1;
    // the last group of the walk holds the string
    let last = breadth(&d.root_group).len() - 1;
    for (i, g) in d.root_group.iter_mut().enumerate() {
        for e in g.entries.iter_mut() {
            if i == last {
                e.strings.insert(key_no(k), StringValue::new(text.clone(), protected));
            }
            // never searched: other fields, binaries and the history
            e.tags = wanted.clone();
            let mut h = full_entry(77);
            h.set_title(wanted.clone());
            e.history = vec![h];
            e.strings.insert(StringKey::Other("p".into()), StringValue::new(wanted.clone(), true));
        }
        g.notes = wanted.clone();
    }
    let hit = !protected && occurs(wanted.as_bytes(), text.as_bytes());
    let all = all_entries(&d);
    let found = d.find_entries(wanted.clone());
    let v = which(&found, &all);
    for (i, x) in v.iter().enumerate() {
        sym::check(*x == (i == last && hit), "the entries that match");
    }
    let want: Vec<*const Entry> = found.iter().map(|e| *e as *const Entry).collect();
    let got = d.find_entries_mut(wanted);
    sym::check(got.len() == want.len(), "the entries to change that match");
    for (a, b) in got.into_iter().zip(&want) {
        sym::check(std::ptr::eq(a, *b), "the entry to change that matches");
        a.usage_count = 4242;
    }
    for e in all_entries(&d) {
        sym::check((e.usage_count == 4242) == want.iter().any(|w| std::ptr::eq(*w, e)), "the entries found can be changed");
    }
    sym::reach(1);
}
/// Several matching entries are all found, in order.
pub fn h_find_entries_many() {
    let n = sym::pick(if sym::tier() > 0 { 5 } else { 4 }, "groups");
    let mut d = grown(n, 2);
    let m = (n + 1) * 2;
    let c = sym::bytes(m, "char");
    let w = sym::u8v("wanted");
    sym::assume(w < 128);
    fn mark(g: &mut Group, c: &[u8], k: &mut usize) {
        for e in g.entries.iter_mut() {
            sym::assume(c[*k] < 128);
            let mut s = String::from("..");
            s.insert(*k % 3, c[*k] as char);
            e.set_username(s);
            e.set_password("....");
            *k += 1;
        }
        for s in g.groups.iter_mut() {
            mark(s, c, k);
        }
    }
    mark(&mut d.root_group, &c, &mut 0);
    alike(&mut d.root_group, sym::pick(3, "identifiers"));
    let all = all_entries(&d);
    let found = d.find_entries(String::from(w as char));
    let v = which(&found, &all);
    for (e, x) in all.iter().zip(&v) {
        let want = occurs(&[w], e.username().unwrap().as_bytes());
        sym::check(*x == want, "each entry that matches");
    }
    let want: Vec<*const Entry> = found.iter().map(|e| *e as *const Entry).collect();
    let got = d.find_entries_mut(String::from(w as char));
    sym::check(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| std::ptr::eq(*a as *const Entry, *b)), "the entries to change");
    sym::reach(1);
}
/// Groups are found by a part of the name, whatever the case.
pub fn h_find_groups() {
    let n = sym::pick(4, "groups");
    let mut d = grown(n, 0);
    let c = sym::bytes(2 * (n + 1), "name");
    for x in &c {
        sym::assume(*x < 128);
    }
    fn mark(g: &mut Group, c: &[u8], k: &mut usize) {
        g.name = String::from_utf8(c[2 * *k..2 * *k + 2].to_vec()).unwrap();
        g.notes = "abcdefghijklmnopqrstuvwxyz".into();
        *k += 1;
        for s in g.groups.iter_mut() {
            mark(s, c, k);
        }
    }
    mark(&mut d.root_group, &c, &mut 0);
    alike(&mut d.root_group, sym::pick(3, "identifiers"));
    let wl = if n > 1 { 1 } else { sym::pick(3, "length") };
    let w = ascii(wl, "wanted");
    let all = breadth(&d.root_group);
    let found = d.find_groups(w.clone());
    let mut at = 0;
    for g in &all {
        let hit = at < found.len() && std::ptr::eq(found[at], *g);
        at += hit as usize;
        sym::check(hit == occurs(w.as_bytes(), g.name.as_bytes()), "the groups that match");
    }
    sym::check(at == found.len(), "groups are found in the order of the walk, each once");
    let want: Vec<*const Group> = found.iter().map(|g| *g as *const Group).collect();
    let got = d.find_groups_mut(w);
    sym::check(got.len() == want.len(), "the groups to change that match");
    for (a, b) in got.iter().zip(&want) {
        sym::check(std::ptr::eq(*a as *const Group, *b), "the group to change that matches");
    }
    sym::reach(1);
}
/// Lookups among hundreds of groups and entries.
pub fn h_find_large() {
    let mut d = db();
    let kind = sym::pick(3, "kind");
    d.root_group = large(kind, 301, 1);
    let how = sym::pick(3, "identifiers");
    alike(&mut d.root_group, how);
    let c = plain(1, "char");
    let some = [0usize, 1, 17, 255, 256, 257, 299, 300];
    let (mut i, mut holders) = (0, vec![]);
    for g in d.root_group.iter_mut() {
        if some.contains(&i) {
            g.name = format!("{}X", c);
            g.entries[0].set_notes(format!("y{}x", c));
            holders.push(i);
        } else {
            g.name = "-".into();
            g.entries[0].set_title("-");
        }
        i += 1;
    }
    let w = format!("{}x", c.to_uppercase());
    let all = all_entries(&d);
    let v = which(&d.find_entries(w.as_str()), &all);
    for (i, x) in v.iter().enumerate() {
        sym::check(*x == holders.contains(&i), "the entries that match among many");
    }
    let groups = breadth(&d.root_group);
    let found = d.find_groups(w.as_str());
    sym::check(found.len() == holders.len() && found.iter().zip(&holders).all(|(g, i)| std::ptr::eq(*g, groups[*i])), "the groups that match among many");
    if how == 0 {
        for i in [0usize, 150, 256, 300] {
            let (g, e) = (groups[i].uuid, all[i].uuid);
            sym::check(d.get_group(g).map_or(false, |x| std::ptr::eq(x, groups[i])), "a group among many");
            sym::check(d.get_entry(e).map_or(false, |x| std::ptr::eq(x, all[i])), "an entry among many");
        }
    }
    let want: Vec<*const Entry> = d.find_entries(w.as_str()).iter().map(|e| *e as *const Entry).collect();
    let got = d.find_entries_mut(w.as_str());
    sym::check(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| std::ptr::eq(*a as *const Entry, *b)), "the entries to change among many");
    let want: Vec<*const Group> = d.find_groups(w.as_str()).iter().map(|e| *e as *const Group).collect();
    let got = d.find_groups_mut(w.as_str());
    sym::check(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| std::ptr::eq(*a as *const Group, *b)), "the groups to change among many");
    sym::reach(1);
}
/// The same as h_tree_iter_keep for the groups a search returns.
pub fn h_find_keep() {
    let mut d = db();
    let mut sub = Group::new("Rooted");
    sub.notes = plain(3, "notes");
    d.root_group.add_group(sub);
    let mut all = d.find_groups_mut("root");
    sym::check(all.len() == 2, "both groups are found");
    let other = all.pop();
    all[0].groups.clear();
    if let Some(g) = other {
        sym::observe(g.notes.as_bytes());
    }
    sym::reach(1);
}
/// Any history of additions and removals, lookups in between.
pub fn h_tree_history() {
    let steps = if sym::tier() > 0 { 5 } else { 4 };
    let mut d = db();
    let mut model: Vec<(u8, bool)> = vec![];
    let mut n = 0u8;
    for _ in 0..steps {
        let k = sym::u8v("id");
        match sym::pick(4, "step") {
            0 => {
                let mut e = full_entry(n);
                e.uuid = EntryUuid(uu(k));
                d.root_group.add_entry(e);
                model.push((k, true));
                n += 1;
            }
            1 => {
                let mut g = full_group(n);
                g.uuid = GroupUuid(uu(k));
                sym::assume(k != 250);
                d.root_group.add_group(g);
                model.push((k, false));
                n += 1;
            }
            s => {
                let of_entry = s == 2;
                let at = model.iter().position(|m| m.1 == of_entry && m.0 == k);
                let had = if of_entry { d.get_entry(EntryUuid(uu(k))).is_some() } else { k != 250 && d.get_group(GroupUuid(uu(k))).is_some() };
                sym::check(had == at.is_some(), "found before it is removed");
                let got = if of_entry {
                    d.root_group.remove_entry(EntryUuid(uu(k))).is_some()
                } else {
                    d.root_group.remove_group(GroupUuid(uu(k))).is_some()
                };
                sym::check(got == at.is_some(), "removed when it is there");
                if let Some(i) = at {
                    model.remove(i);
                }
            }
        }
        let es: Vec<u8> = model.iter().filter(|m| m.1).map(|m| m.0).collect();
        let gs: Vec<u8> = model.iter().filter(|m| !m.1).map(|m| m.0).collect();
        sym::check(d.root_group.entries.len() == es.len() && d.root_group.groups.len() == gs.len(), "what is there");
        for (e, k) in d.root_group.entries.iter().zip(&es) {
            sym::check(e.uuid == EntryUuid(uu(*k)), "the entries in order");
        }
        for (g, k) in d.root_group.groups.iter().zip(&gs) {
            sym::check(g.uuid == GroupUuid(uu(*k)), "the groups in order");
        }
    }
    sym::reach(1);
}
/// Texts beyond ASCII.
pub fn h_find_unicode() {
    const PAIRS: [(&str, &str, bool); 12] = [
        ("\u{c4}pfel", "\u{e4}PF", true),
        ("stra\u{df}e", "STRA\u{df}", true),
        ("stra\u{df}e", "STRASSE", false),
        ("\u{39f}\u{394}\u{39f}\u{3a3}", "\u{3bf}\u{3b4}", true),
        ("\u{416}\u{443}\u{43a}", "\u{436}\u{423}", true),
        ("\u{416}\u{443}\u{43a}", "\u{416}\u{43a}", false),
        ("\u{212a}ey", "key", true),
        ("\u{130}z", "i\u{307}Z", true),
        ("\u{10400}x", "\u{10428}X", true),
        ("na\u{ef}ve", "NA\u{cf}VE", true),
        ("e\u{301}", "\u{e9}", false),
        ("\u{5bc6}\u{7801}", "\u{7801}", true),
    ];
    let (text, wanted, hit) = PAIRS[sym::pick(12, "pair")];
    let c = plain(1, "more");
    let mut d = grown(1, 1);
    let t = format!("{}{}", c, text);
    d.root_group.groups[0].entries[0].set_notes(t.clone());
    d.root_group.groups[0].name = t;
    let found = d.find_entries(wanted).len();
    sym::check(found == hit as usize, "entries beyond ASCII");
    sym::check(d.find_groups(wanted).len() == hit as usize, "groups beyond ASCII");
    sym::reach(1);
}

// ------------------------------------------------------------- what is printed

/// Text with as many different lengths as there are kinds.
fn secret(k: usize, name: &str) -> Vec<u8> {
    let n = [3usize, 0, 1, 16, 40][k];
    let b = sym::bytes(n, name);
    for c in &b {
        sym::assume((*c >= b'a') & (*c <= b'z'));
    }
    b
}
fn holding(s: &[u8]) -> Vec<String> {
    let sec = || SecStr::new(s.to_vec());
    let kf = KeyFile { key: sec(), file_type: KeyFileType::Xml };
    let pw = String::from_utf8(s.to_vec()).unwrap();
    let mut out = vec![format!("{:?}", kf), format!("{:#?}", kf)];
    let keys = [CompositeKey::from_password(pw.clone()), CompositeKey::from_key_file(kf.clone()), CompositeKey::from_both(pw.clone(), kf)];
    let mut e = Entry::default();
    e.creation_time = tm(1);
    e.expiry_time = tm(1);
    e.last_accessed = tm(1);
    e.last_modified = tm(1);
    e.location_changed = tm(1);
    e.set_password(pw.clone());
    out.push(format!("{:?}", e));
    out.push(format!("{:#?}", e));
    out.push(format!("{:?}", StringValue::new(pw.clone(), true)));
    out.push(format!("{:?}", BinaryValue::Protected(sec())));
    let mut f = e.clone();
    f.strings = StringsMap::new();
    f.strings.insert(StringKey::Notes, StringValue::new(pw, true));
    out.push(format!("{:?}", f));
    f.strings = StringsMap::new();
    f.binaries.insert(BinaryKey("b".into()), BinaryValue::Protected(sec()));
    f.history = vec![e];
    out.push(format!("{:?}", f));
    let mut g = Group::default();
    g.creation_time = tm(1);
    g.expiry_time = tm(1);
    g.last_accessed = tm(1);
    g.last_modified = tm(1);
    g.location_changed = tm(1);
    g.add_entry(f);
    out.push(format!("{:?}", g));
    for k in &keys {
        out.push(format!("{:?}", k));
        out.push(format!("{:#?}", k));
        let mut d = Database::new(k);
        d.def_username_changed = tm(1);
        d.description_changed = tm(1);
        d.entry_templates_group_changed = tm(1);
        d.master_key_changed = tm(1);
        d.name_changed = tm(1);
        d.recycle_bin_changed = tm(1);
        d.root_group = g.clone();
        out.push(format!("{:?}", d));
    }
    out
}
/// What is printed of keys and protected values does not depend on them.
pub fn h_print_values() {
    let k = sym::pick(5, "size");
    let a = holding(&secret(0, "secret"));
    let b = holding(&secret(k, "other"));
    sym::check(a.len() == b.len(), "the number of texts");
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        sym::check(x.len() == y.len(), "the length of what is printed does not depend on the secret");
        sym::check(x == y, "what is printed does not depend on the secret");
        let _ = i;
    }
    sym::reach(1);
}
