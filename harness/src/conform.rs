//! What a save writes, judged by the independent reader.
use crate::gen::*;
use crate::kdbx::{self, Node, Opened};
use crate::model::*;
use crate::sym;
use chrono::{Datelike, Timelike, DateTime, Utc};
use kpdb::*;
use secstr::SecStr;

/// `YYYY-MM-DDThh:mm:ssZ`, by civil-from-days arithmetic on the timestamp.
pub fn iso(t: &DateTime<Utc>) -> Vec<u8> {
    let n = t.naive_utc();
    let (y, m, d, rem) = (n.year() as u32, n.month(), n.day(), n.num_seconds_from_midnight());
    let mut o = vec![];
    let mut put = |v: u32, n: u32| {
        for i in (0..n).rev() {
            o.push(b'0' + (v / 10u32.pow(i) % 10) as u8);
        }
    };
    put(y, 4);
    put(m, 2);
    put(d, 2);
    put(rem / 3600, 2);
    put(rem / 60 % 60, 2);
    put(rem % 60, 2);
    let mut r = vec![];
    for (i, c) in o.iter().enumerate() {
        match i {
            4 | 6 => r.push(b'-'),
            8 => r.push(b'T'),
            10 | 12 => r.push(b':'),
            _ => {}
        }
        r.push(*c);
    }
    r.push(b'Z');
    r
}
pub fn dec(n: i32) -> Vec<u8> {
    let mut v = vec![];
    let mut m = (n as i64).unsigned_abs();
    loop {
        v.push(b'0' + (m % 10) as u8);
        m /= 10;
        if m == 0 {
            break;
        }
    }
    if n < 0 {
        v.push(b'-');
    }
    v.reverse();
    v
}
pub fn hex(c: &Color) -> Vec<u8> {
    let d = b"0123456789abcdef";
    let mut v = vec![b'#'];
    for x in [c.red, c.green, c.blue] {
        v.push(d[(x >> 4) as usize]);
        v.push(d[(x & 15) as usize]);
    }
    v
}
fn text(n: &Node, tag: &str, want: &[u8]) {
    let k = n.need(tag);
    sym::check(k.kids.is_empty(), "a value has no children");
    sym::check(&k.text[..] == want, tag_msg(tag));
}
/// The name of what differs, for the report.
fn tag_msg(tag: &str) -> &str {
    tag
}
fn opt_text(n: &Node, tag: &str, want: Option<Vec<u8>>) {
    sym::check(n.all(tag).count() <= 1, "an optional element occurs at most once");
    let got = n.kid(tag).map(|k| &k.text[..]).unwrap_or(b"");
    sym::check(got == &want.unwrap_or_default()[..], tag);
}
fn boolean(n: &Node, tag: &str, want: Option<bool>) {
    let k = n.need(tag);
    let t = k.text.to_ascii_lowercase();
    let w: &[u8] = match want {
        Some(true) => b"true",
        Some(false) => b"false",
        None => b"null",
    };
    sym::check(&t[..] == w, tag);
}
fn base64(n: &Node, tag: &str, want: &[u8]) {
    match kdbx::unb64(&n.need(tag).text) {
        Some(b) => sym::check(&b[..] == want, tag),
        None => sym::check(false, "a binary value is base64"),
    }
}
fn times(n: &Node, c: [&DateTime<Utc>; 5], expires: bool, usage: i32) {
    let t = n.need("Times");
    text(t, "CreationTime", &iso(c[0]));
    text(t, "ExpiryTime", &iso(c[1]));
    text(t, "LastAccessTime", &iso(c[2]));
    text(t, "LastModificationTime", &iso(c[3]));
    text(t, "LocationChanged", &iso(c[4]));
    boolean(t, "Expires", Some(expires));
    text(t, "UsageCount", &dec(usage));
}
pub struct Doc {
    pub o: Opened,
    pub root: Node,
}
pub fn key_name(k: &StringKey) -> &str {
    match k {
        StringKey::Notes => "Notes",
        StringKey::Password => "Password",
        StringKey::Title => "Title",
        StringKey::Url => "URL",
        StringKey::Username => "UserName",
        StringKey::Other(s) => s,
    }
}
fn protected(v: &Node) -> bool {
    match v.attr("Protected") {
        None => false,
        Some(b"True") => true,
        Some(_) => {
            sym::check(false, "the value of the attribute Protected");
            false
        }
    }
}
fn find<'a>(n: &'a Node, tag: &str, key: &str) -> &'a Node {
    let mut found = None;
    let mut times = 0;
    for s in n.kids.iter().filter(|k| k.tag == tag) {
        if s.need("Key").text == key.as_bytes() {
            found = Some(s.need("Value"));
            times += 1;
        }
    }
    sym::check(times == 1, "each key once");
    found.unwrap()
}
/// The plaintexts of the protected values were put into the tree by `reveal`.
fn entry(n: &Node, e: &Entry, history: bool) {
    sym::check(n.tag == "Entry", "an entry is an Entry element");
    base64(n, "UUID", e.uuid.0.as_bytes());
    text(n, "IconID", &dec(e.icon.to_i32()));
    uuid_opt(n, "CustomIconUUID", &e.custom_icon_uuid);
    opt_text(n, "ForegroundColor", e.foreground_color.as_ref().map(hex));
    opt_text(n, "BackgroundColor", e.background_color.as_ref().map(hex));
    opt_text(n, "OverrideURL", Some(e.override_url.clone().into_bytes()));
    opt_text(n, "Tags", Some(e.tags.clone().into_bytes()));
    times(
        n,
        [&e.creation_time, &e.expiry_time, &e.last_accessed, &e.last_modified, &e.location_changed],
        e.expires,
        e.usage_count,
    );
    sym::check(n.all("String").count() == e.strings.len(), "the number of String elements");
    for (k, v) in &e.strings {
        let x = find(n, "String", key_name(k));
        match v {
            StringValue::Plain(s) => {
                sym::check(!protected(x), "a plain string is not marked as protected");
                sym::check(x.text == s.as_bytes(), "a plain string");
            }
            StringValue::Protected(s) => {
                sym::check(protected(x), "a protected string is marked");
                sym::check(x.text == s.unsecure(), "a protected string");
            }
        }
    }
    sym::check(n.all("Binary").count() == e.binaries.len(), "the number of Binary elements");
    for (k, v) in &e.binaries {
        let x = find(n, "Binary", &k.0);
        match v {
            BinaryValue::Plain(b) => {
                sym::check(!protected(x) && x.attr("Ref").is_none(), "a plain attachment has no attributes");
                match kdbx::unb64(&x.text) {
                    Some(y) => sym::check(&y == b, "a plain attachment"),
                    None => sym::check(false, "an attachment is base64"),
                }
            }
            BinaryValue::Protected(s) => {
                sym::check(protected(x), "a protected attachment is marked");
                sym::check(x.text == s.unsecure(), "a protected attachment");
            }
            BinaryValue::Ref(i) => {
                sym::check(x.attr("Ref") == Some(i.0.as_bytes()), "a reference to a shared binary");
                sym::check(x.text.is_empty() && !protected(x), "a reference has no content");
            }
        }
    }
    let a = n.need("AutoType");
    boolean(a, "Enabled", Some(e.auto_type_enabled));
    text(a, "DataTransferObfuscation", if e.auto_type_obfuscation == Obfuscation::None { b"0" } else { b"1" });
    text(a, "DefaultSequence", e.auto_type_def_sequence.as_bytes());
    sym::check(a.all("Association").count() == e.associations.len(), "the number of associations");
    for (x, y) in a.all("Association").zip(e.associations.iter()) {
        text(x, "Window", y.window.as_bytes());
        text(x, "KeystrokeSequence", y.keystroke_sequence.as_bytes());
    }
    if history {
        sym::check(n.all("History").count() == 0, "a history entry has no history");
    } else {
        sym::check(n.all("History").count() <= 1, "one History element");
        let none = vec![];
        let h = n.kid("History").map(|h| &h.kids).unwrap_or(&none);
        sym::check(h.len() == e.history.len(), "the number of history entries in the file");
        for (x, y) in h.iter().zip(e.history.iter()) {
            entry(x, y, true);
        }
    }
}
fn uuid_opt(n: &Node, tag: &str, want: &Option<CustomIconUuid>) {
    match want {
        Some(u) => base64(n, tag, u.0.as_bytes()),
        None => opt_text(n, tag, None),
    }
}
fn group(n: &Node, g: &Group) {
    sym::check(n.tag == "Group", "a group is a Group element");
    base64(n, "UUID", g.uuid.0.as_bytes());
    text(n, "Name", g.name.as_bytes());
    opt_text(n, "Notes", Some(g.notes.clone().into_bytes()));
    text(n, "IconID", &dec(g.icon.to_i32()));
    uuid_opt(n, "CustomIconUUID", &g.custom_icon_uuid);
    times(
        n,
        [&g.creation_time, &g.expiry_time, &g.last_accessed, &g.last_modified, &g.location_changed],
        g.expires,
        g.usage_count,
    );
    boolean(n, "IsExpanded", Some(g.is_expanded));
    opt_text(n, "DefaultAutoTypeSequence", Some(g.def_auto_type_sequence.clone().into_bytes()));
    boolean(n, "EnableAutoType", g.enable_auto_type);
    boolean(n, "EnableSearching", g.enable_searching);
    base64(n, "LastTopVisibleEntry", g.last_top_visible_entry.0.as_bytes());
    sym::check(n.all("Entry").count() == g.entries.len(), "the number of Entry elements");
    for (x, y) in n.all("Entry").zip(g.entries.iter()) {
        entry(x, y, false);
    }
    sym::check(n.all("Group").count() == g.groups.len(), "the number of Group elements");
    for (x, y) in n.all("Group").zip(g.groups.iter()) {
        group(x, y);
    }
}
/// Decrypt the protected values in place, in document order.
fn reveal(n: &mut Node, s: &mut kdbx::Salsa) {
    if protected(n) {
        sym::check(n.kids.is_empty(), "a protected value has no children");
        match kdbx::unb64(&n.text) {
            Some(c) => n.text = s.xor(&c),
            None => sym::check(false, "a protected value is base64"),
        }
    }
    for k in n.kids.iter_mut() {
        reveal(k, s);
    }
}
pub fn document(f: &[u8], key: &[u8; 32]) -> Doc {
    let mut o = match kdbx::open(f, key) {
        Ok(o) => o,
        Err(e) => {
            sym::check(false, e);
            unreachable!()
        }
    };
    let mut root = match kdbx::parse(&o.xml) {
        Some(d) => d,
        None => {
            sym::check(false, "the saved document is well-formed");
            unreachable!()
        }
    };
    reveal(&mut root, &mut o.salsa);
    Doc { o, root }
}
/// The header and the document of a saved file say what the database says.
pub fn conforms(d: &Database, f: &[u8], key: &[u8; 32]) -> Doc {
    let doc = document(f, key);
    let o = &doc.o;
    sym::check(o.major == d.version.major && o.minor == d.version.minor, "version in the header");
    let n = if d.comment.is_some() { 10 } else { 9 };
    sym::check(o.items.len() == n, "the number of header fields");
    if let Some(ref c) = d.comment {
        sym::check(o.item(1) == &c.0[..], "comment in the header");
    }
    sym::check(o.item(3)[0] == (d.compression == Compression::GZip) as u8, "compression in the header");
    sym::check(o.item(6) == d.transform_rounds.0.to_le_bytes(), "rounds in the header");
    sym::check(doc.root.tag == "KeePassFile", "the root element");
    sym::check(doc.root.kids.len() == 2, "the root element has Meta and Root");
    let m = doc.root.need("Meta");
    text(m, "Generator", b"rust-kpdb");
    base64(m, "HeaderHash", &o.header_hash);
    text(m, "DatabaseName", d.name.as_bytes());
    text(m, "DatabaseNameChanged", &iso(&d.name_changed));
    text(m, "DatabaseDescription", d.description.as_bytes());
    text(m, "DatabaseDescriptionChanged", &iso(&d.description_changed));
    text(m, "DefaultUserName", d.def_username.as_bytes());
    text(m, "DefaultUserNameChanged", &iso(&d.def_username_changed));
    text(m, "MaintenanceHistoryDays", &dec(d.maintenance_history_days));
    opt_text(m, "Color", d.color.as_ref().map(hex));
    text(m, "MasterKeyChanged", &iso(&d.master_key_changed));
    text(m, "MasterKeyChangeRec", &dec(d.master_key_change_rec));
    text(m, "MasterKeyChangeForce", &dec(d.master_key_change_force));
    let p = m.need("MemoryProtection");
    boolean(p, "ProtectTitle", Some(d.protect_title));
    boolean(p, "ProtectUserName", Some(d.protect_username));
    boolean(p, "ProtectPassword", Some(d.protect_password));
    boolean(p, "ProtectURL", Some(d.protect_url));
    boolean(p, "ProtectNotes", Some(d.protect_notes));
    boolean(m, "RecycleBinEnabled", Some(d.recycle_bin_enabled));
    base64(m, "RecycleBinUUID", d.recycle_bin_uuid.0.as_bytes());
    text(m, "RecycleBinChanged", &iso(&d.recycle_bin_changed));
    base64(m, "EntryTemplatesGroup", d.entry_templates_group_uuid.0.as_bytes());
    text(m, "EntryTemplatesGroupChanged", &iso(&d.entry_templates_group_changed));
    text(m, "HistoryMaxItems", &dec(d.history_max_items));
    text(m, "HistoryMaxSize", &dec(d.history_max_size));
    base64(m, "LastSelectedGroup", d.last_selected_group.0.as_bytes());
    base64(m, "LastTopVisibleGroup", d.last_top_visible_group.0.as_bytes());
    let b = m.need("Binaries");
    sym::check(b.kids.len() == d.binaries.len(), "the number of shared binaries in the file");
    for (id, data) in &d.binaries {
        let x = b.all("Binary").find(|n| n.attr("ID") == Some(id.0.as_bytes()));
        sym::check(x.is_some(), "the ID of a shared binary");
        let x = x.unwrap();
        let raw = kdbx::unb64(&x.text);
        sym::check(raw.is_some(), "a shared binary is base64");
        let mut raw = raw.unwrap();
        if x.attr("Compressed") == Some(b"True") {
            use std::io::Read;
            let mut o = vec![];
            let ok = flate2::read::GzDecoder::new(&raw[..]).read_to_end(&mut o).is_ok();
            sym::check(ok, "a compressed binary is gzip data");
            raw = o;
        } else {
            sym::check(x.attr("Compressed").is_none() || x.attr("Compressed") == Some(b"False"), "the attribute Compressed");
        }
        sym::check(&raw == data, "the content of a shared binary");
    }
    let c = m.need("CustomData");
    sym::check(c.kids.len() == d.custom_data.len(), "the number of custom data items in the file");
    for (k, v) in &d.custom_data {
        let x = c.all("Item").find(|n| n.need("Key").text == k.as_bytes());
        sym::check(x.is_some(), "the key of a custom data item");
        text(x.unwrap(), "Value", v.as_bytes());
    }
    let i = m.need("CustomIcons");
    sym::check(i.kids.len() == d.custom_icons.len(), "the number of custom icons in the file");
    for (u, v) in &d.custom_icons {
        let x = i.all("Icon").find(|n| kdbx::unb64(&n.need("UUID").text).as_deref() == Some(&u.0.as_bytes()[..]));
        sym::check(x.is_some(), "the UUID of a custom icon");
        base64(x.unwrap(), "Data", v);
    }
    let r = doc.root.need("Root");
    group(r.need("Group"), &d.root_group);
    doc
}
fn finish(d: Database) {
    conforms(&d, &save(&d), &kdbx::password_key(PW.as_bytes()));
    sym::reach(1);
}
/// Text as in `gen::text`, without the carriage returns that conforming readers normalise.
fn xml_text(n: usize, name: &str) -> String {
    let s = crate::gen::text(n, name);
    for b in s.as_bytes() {
        sym::assume(*b != 13);
    }
    s
}

pub fn h_conf_meta() {
    let mut d = db();
    crate::meta::distinct(&mut d);
    d.name = plain(3, "name");
    d.description = plain(3, "description");
    d.def_username = plain(3, "def_username");
    d.history_max_items = num3("n1");
    d.history_max_size = num3("n2");
    d.maintenance_history_days = num3("n3");
    d.master_key_change_force = num3("n4");
    d.master_key_change_rec = num3("n5");
    d.entry_templates_group_uuid = GroupUuid(uuid16("u1"));
    d.last_selected_group = GroupUuid(uuid16("u2"));
    d.last_top_visible_group = GroupUuid(uuid16("u3"));
    d.recycle_bin_uuid = GroupUuid(uuid16("u4"));
    d.name_changed = tod("t");
    d.color = if sym::pick(2, "color") == 1 { Some(color("c")) } else { None };
    let k = sym::pick(8, "flags");
    crate::meta::flags(&mut d, if k == 7 { 63 } else if k == 6 { 0 } else { 1 << k });
    finish(d);
}
pub fn h_conf_entry() {
    let mut d = db();
    let mut e = full_entry(1);
    e.override_url = plain(2, "url");
    e.tags = plain(2, "tags");
    e.usage_count = num3("n");
    e.uuid = EntryUuid(uuid16("u"));
    e.last_modified = tod("t");
    e.foreground_color = Some(color("fg"));
    e.associations[1] = assoc(&plain(2, "w"), &plain(2, "k"));
    e.set_title(plain(2, "title"));
    e.set_password(plain(2, "pw"));
    e.set_other(StringKey::Other("other".into()), plain(2, "other"));
    e.binaries.insert(BinaryKey("plain".into()), BinaryValue::Plain({
        let b = sym::bytes(3, "bin");
        no_slash(&b);
        b
    }));
    e.binaries.insert(BinaryKey("prot".into()), BinaryValue::Protected(SecStr::new(sym::bytes(1, "pbin"))));
    e.binaries.insert(BinaryKey("ref".into()), BinaryValue::Ref(BinaryId(plain(1, "id"))));
    if sym::pick(2, "options") == 1 {
        e.custom_icon_uuid = None;
        e.foreground_color = None;
        e.background_color = None;
        e.associations.clear();
        e.auto_type_obfuscation = Obfuscation::None;
        e.auto_type_enabled = false;
        e.expires = true;
    }
    let mut h = e.clone();
    h.set_password("older");
    h.set_url("older url");
    for i in 0..sym::pick(3, "history") {
        h.last_modified = tm(i as i64);
        e.history.push(h.clone());
    }
    d.root_group.entries.push(e);
    d.root_group.entries.push(h);
    finish(d);
}
pub fn h_conf_tree() {
    let mut d = db();
    let n = 1 + sym::pick(if sym::tier() > 0 { 4 } else { 3 }, "groups");
    crate::tree::any_tree(&mut d.root_group, n);
    fn fill(g: &mut Group, k: &mut u8) {
        *k += 1;
        g.name = plain(1, "name");
        g.usage_count = num3("n");
        for i in 0..*k % 3 {
            let mut e = full_entry(*k * 3 + i);
            e.set_password(format!("pw{}", *k + i));
            g.entries.push(e);
        }
        for s in g.groups.iter_mut() {
            fill(s, k);
        }
    }
    let mut k = 0;
    fill(&mut d.root_group, &mut k);
    finish(d);
}
pub fn h_conf_group() {
    let mut d = db();
    let mut g = full_group(30);
    g.notes = plain(3, "notes");
    g.def_auto_type_sequence = plain(3, "seq");
    g.uuid = GroupUuid(uuid16("uuid"));
    g.custom_icon_uuid = Some(CustomIconUuid(uuid16("icon")));
    g.last_top_visible_entry = EntryUuid(uuid16("top"));
    g.creation_time = tod("t");
    match sym::pick(5, "options") {
        0 => g.custom_icon_uuid = None,
        1 => g.enable_auto_type = None,
        2 => g.enable_searching = None,
        3 => g.is_expanded = !g.is_expanded,
        _ => g.expires = !g.expires,
    }
    d.root_group.groups.push(g);
    finish(d);
}
/// One arbitrary text in each kind of place.
pub fn h_conf_text() {
    let mut d = db();
    let mut e = full_entry(1);
    let n = if sym::tier() > 0 { 3 } else { 2 };
    match sym::pick(8, "place") {
        0 => d.name = xml_text(n, "text"),
        1 => e.set_title(xml_text(n, "text")),
        2 => e.set_other(StringKey::Other(xml_text(n, "text")), "v"),
        3 => {
            d.custom_data.insert("key".into(), xml_text(n, "text"));
        }
        4 => e.associations[0].window = xml_text(n, "text"),
        5 => d.root_group.notes = xml_text(n, "text"),
        6 => {
            e.binaries.insert(BinaryKey("a".into()), BinaryValue::Ref(BinaryId(attr())));
        }
        _ => {
            d.binaries.insert(BinaryId(attr()), vec![1]);
        }
    }
    d.root_group.entries.push(e);
    finish(d);
}
fn attr() -> String {
    let s = crate::strings::attr_text("id");
    // An XML reader normalises the white space in an attribute.
    for b in s.as_bytes() {
        sym::assume(*b != 9 && *b != 10 && *b != 13);
    }
    s
}
pub fn h_conf_num() {
    let mut d = db();
    let mut e = full_entry(1);
    match sym::pick(4, "what") {
        0 => d.history_max_size = num("n"),
        1 => d.color = Some(color("c")),
        2 => e.expiry_time = time("t"),
        _ => {
            let k = sym::pick(69, "icon");
            e.icon = Icon::from_i32(k as i32).unwrap();
        }
    }
    d.root_group.entries.push(e);
    finish(d);
}
/// The container: comment, version, rounds, compression; everything else concrete.
pub fn h_conf_header() {
    let mut d = db();
    crate::meta::distinct(&mut d);
    let k = sym::pick(5, "comment");
    d.comment = if k == 0 { None } else { Some(Comment(sym::bytes([0, 0, 1, 5, 300][k], "comment"))) };
    d.version = Version { major: u16::from_le_bytes(sym::arr("major")), minor: u16::from_le_bytes(sym::arr("minor")) };
    d.transform_rounds = TransformRounds([1, 0, 2, 7, 256][sym::pick(5, "rounds")]);
    let f = save(&d);
    focus_header(&f);
    conforms(&d, &f, &kdbx::password_key(PW.as_bytes()));
    sym::reach(1);
}
pub fn h_conf_gzip() {
    let mut d = db();
    crate::meta::distinct(&mut d);
    d.compression = Compression::GZip;
    d.transform_rounds = TransformRounds(3);
    d.name = "x<&>\"' \u{e4}\u{20ac}\u{1f511}".repeat([1, 300, 3000][sym::pick(3, "big")]);
    d.binaries.insert(BinaryId("0".into()), vec![7; 1000]);
    d.binaries.insert(BinaryId("1".into()), vec![]);
    d.custom_icons.insert(CustomIconUuid(uu(1)), vec![0xff; 100]);
    let mut e = full_entry(1);
    e.set_password("secret");
    d.root_group.entries.push(e);
    finish(d);
}
