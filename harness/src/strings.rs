//! Strings, binaries and maps survive a save and an open; what is protected
//! stays protected and leaves the process only encrypted.
use crate::gen::*;
use crate::kdbx;
use crate::model::*;
use crate::sym;
use kpdb::*;
use secstr::SecStr;

fn finish(d: Database) {
    let b = round(&d);
    same_db(&d, &b);
    sym::reach(1);
}
pub fn value(s: String, protected: bool) -> StringValue {
    if protected {
        StringValue::Protected(SecStr::from(s))
    } else {
        StringValue::Plain(s)
    }
}
fn std_key(i: usize) -> StringKey {
    match i {
        0 => StringKey::Notes,
        1 => StringKey::Password,
        2 => StringKey::Title,
        3 => StringKey::Url,
        4 => StringKey::Username,
        _ => StringKey::Other(format!("other{}", i)),
    }
}
/// All the standard strings and two others; every combination of one protected
/// or one plain among the others.
pub fn h_str_all() {
    let mut d = db();
    let k = sym::pick(7, "odd");
    let inv = sym::pick(2, "invert") == 1;
    for n in 0..2u8 {
        let mut e = full_entry(n);
        for i in 0..7 {
            if n == 1 && i == 3 {
                continue;
            }
            e.strings.insert(std_key(i), value(plain(1 + i % 3, "value"), (i == k) != inv));
        }
        d.root_group.entries.push(e);
    }
    finish(d);
}
/// One value, arbitrary text, plain or protected.
pub fn h_str_text() {
    let mut d = db();
    let mut e = full_entry(1);
    let key = std_key([0, 1, 5][sym::pick(3, "key")]);
    let n = if sym::tier() > 0 { 3 } else { 2 };
    let v = if sym::pick(2, "protected") == 1 { value(utf8(n, "text"), true) } else { value(text(n, "text"), false) };
    e.strings.insert(key, v);
    e.strings.insert(StringKey::Title, value("t".into(), false));
    d.root_group.entries.push(e);
    finish(d);
}
/// An arbitrary key that is not one of the standard names in another case.
pub fn h_str_key() {
    let mut d = db();
    let mut e = full_entry(1);
    let k = text(if sym::tier() > 0 { 3 } else { 2 }, "key");
    e.strings.insert(StringKey::Other(k), value(plain(2, "value"), sym::pick(2, "protected") == 1));
    e.strings.insert(StringKey::Url, value("url".into(), false));
    d.root_group.entries.push(e);
    finish(d);
}
/// Standard names with more characters in front, within or behind, beside the real ones.
pub fn h_str_key_near() {
    let mut d = db();
    let mut e = full_entry(1);
    let k = sym::pick(5, "key");
    let name = crate::conform::key_name(&std_key(k)).to_string();
    let at = [0, name.len(), name.len() / 2][sym::pick(3, "at")];
    let mut near = name.clone();
    match sym::pick(3, "kind") {
        0 => near.insert(at, ['\u{a0}', '\u{feff}', '\u{301}'][sym::pick(3, "wide")]),
        1 => near.insert_str(at, &text(1, "more")),
        _ => {
            if at == 0 {
                near.remove(0);
            } else {
                near.remove(at - 1);
            }
            let c = plain(1, "more");
            near.insert_str(at.saturating_sub(1), &c);
            // another spelling of a standard name means that name
            sym::assume(near.to_lowercase() != name.to_lowercase());
        }
    }
    e.strings.insert(std_key(k), value(plain(2, "value"), true));
    e.strings.insert(StringKey::Other(near), value(plain(2, "near"), sym::pick(2, "protected") == 1));
    d.root_group.entries.push(e);
    finish(d);
}
pub fn h_str_key_empty() {
    let mut d = db();
    let mut e = full_entry(1);
    e.strings.insert(StringKey::Other(String::new()), value(plain(2, "value"), sym::pick(2, "protected") == 1));
    d.root_group.entries.push(e);
    finish(d);
}
const LENS: [usize; 10] = [0, 1, 15, 31, 63, 64, 65, 127, 1000, 5000];
/// Values of many lengths, around the blocks of the stream cipher and the buffers.
pub fn h_str_long() {
    let mut d = db();
    let n = LENS[sym::pick(LENS.len() as u32, "len")];
    let m = LENS[sym::pick(if sym::tier() > 0 { LENS.len() as u32 } else { 4 }, "len2")];
    let mut e = full_entry(1);
    let mut s = "x".repeat(n);
    if n > 2 {
        s.truncate(n - 2);
        s += &plain(2, "end");
    }
    e.strings.insert(StringKey::Notes, value("y".repeat(m), true));
    e.strings.insert(StringKey::Password, value(s.clone(), true));
    e.strings.insert(StringKey::Title, value(s, false));
    d.root_group.entries.push(e);
    let mut f = full_entry(2);
    f.strings.insert(StringKey::Password, value(plain(3, "pw"), true));
    d.root_group.entries.push(f);
    finish(d);
}
/// Protected strings and binaries in many places share one key stream.
pub fn h_str_places() {
    let mut d = db();
    let mk = |n: u8, s: bool| {
        let mut e = full_entry(n);
        e.associations.clear();
        if s {
            let s = if n == 1 || n == 7 { plain(2, "pw") } else { format!("pw{}", n) };
            e.strings.insert(StringKey::Password, value(s, true));
        }
        e
    };
    let k = sym::pick(8, "places");
    d.root_group.entries.push(mk(1, k & 1 != 0));
    let mut e = mk(2, k & 2 != 0);
    e.history.push(mk(3, k & 4 != 0));
    e.history.push(mk(4, true));
    e.binaries.insert(BinaryKey("a".into()), BinaryValue::Protected(SecStr::new(sym::bytes(1, "bin"))));
    d.root_group.entries.push(e);
    let mut g = full_group(30);
    g.entries.push(mk(5, true));
    let mut h = full_group(31);
    h.entries.push(mk(6, true));
    g.groups.push(h);
    d.root_group.groups.push(g);
    d.root_group.groups.push({
        let mut g = full_group(32);
        g.entries.push(mk(7, true));
        g
    });
    finish(d);
}

/// Nothing protected is readable in the document, and all of it decrypts, in
/// document order, to what was put in.
pub fn h_protected_secret() {
    let mut d = db();
    let k = sym::pick(7, "where");
    let secret = String::from_utf8(exotic(8, "secret")).unwrap();
    let mut e = full_entry(1);
    let mut f = full_entry(2);
    e.strings.insert(StringKey::Title, value("title".into(), false));
    let fill = |m: &mut StringsMap| {
        for i in 0..7 {
            m.insert(std_key(i), value(secret.clone(), true));
        }
    };
    let mut g = full_group(30);
    match k {
        0 => fill(&mut e.strings),
        1 => {
            e.history.push(full_entry(3));
            fill(&mut e.history[0].strings)
        }
        2 => {
            fill(&mut f.strings);
            fill(&mut e.strings);
            g.entries.push(f.clone());
        }
        3 => {
            e.binaries.insert(BinaryKey("b".into()), BinaryValue::Protected(SecStr::from(secret.clone())));
            e.binaries.insert(BinaryKey("c".into()), BinaryValue::Protected(SecStr::from(secret.clone())));
        }
        4 => {
            e.set_password(secret.clone());
            f.set_password(secret.clone());
        }
        5 => {
            // all protected settings, none of which turns protection off
            crate::meta::flags(&mut d, 32);
            e.strings.insert(StringKey::Password, value(secret.clone(), true));
        }
        _ => {
            let mut h = f.clone();
            fill(&mut h.strings);
            let mut i = f.clone();
            i.history.push(h.clone());
            g.entries.push(i);
            fill(&mut e.strings);
        }
    }
    d.root_group.entries.push(e);
    g.entries.push(f);
    d.root_group.groups.push(g);
    // the user's composite key must not be in there either
    let o = match kdbx::open(&save(&d), &kdbx::password_key(PW.as_bytes())) {
        Ok(o) => o,
        Err(_) => {
            sym::check(false, "the saved file is well-formed");
            unreachable!()
        }
    };
    let mut seen = false;
    for b in &o.xml {
        seen |= (*b >= 0x5b) & (*b <= 0x5e);
    }
    sym::check(!seen, "no character of a protected value is in the clear");
    let doc = match kdbx::parse(&o.xml) {
        Some(d) => d,
        None => {
            sym::check(false, "the saved document is well-formed");
            unreachable!()
        }
    };
    let mut salsa = o.salsa;
    let mut count = 0;
    doc.walk(&mut |n| {
        if n.tag == "Value" && n.attr("Protected") == Some(b"True") {
            match kdbx::unb64(&n.text) {
                Some(c) => {
                    let p = salsa.xor(&c);
                    sym::check(&p[..] == secret.as_bytes(), "a protected value decrypts in document order");
                    count += 1;
                }
                None => sym::check(false, "a protected value is base64"),
            }
        }
    });
    sym::check(count == [7, 7, 21, 2, 2, 1, 14][k], "the number of protected values");
    sym::reach(1);
}
/// Two equal secrets never have the same ciphertext by construction: each is
/// masked with its own part of the key stream (nothing is masked twice).
pub fn h_protected_stream() {
    let mut d = db();
    let mut e = full_entry(1);
    let n = [1usize, 31, 32, 64, 65][sym::pick(5, "len")];
    let a = "p".repeat(n);
    e.strings.insert(StringKey::Password, value(a.clone(), true));
    let mut f = full_entry(2);
    f.strings.insert(StringKey::Password, value(a.clone(), true));
    f.binaries.insert(BinaryKey("b".into()), BinaryValue::Protected(SecStr::from(a.clone())));
    let versions = sym::pick(3, "history");
    for x in [&mut e, &mut f] {
        for _ in 0..versions {
            let mut h = x.clone();
            h.history.clear();
            x.history.push(h);
        }
    }
    let mut g = full_group(30);
    g.entries.push(f);
    d.root_group.groups.push(g);
    d.root_group.entries.push(e);
    let o = match kdbx::open(&save(&d), &kdbx::password_key(PW.as_bytes())) {
        Ok(o) => o,
        Err(_) => {
            sym::check(false, "the saved file is well-formed");
            unreachable!()
        }
    };
    let doc = kdbx::parse(&o.xml);
    sym::check(doc.is_some(), "the saved document is well-formed");
    let mut all = vec![];
    doc.unwrap().walk(&mut |n| {
        if n.tag == "Value" && n.attr("Protected").is_some() {
            all.extend(kdbx::unb64(&n.text).unwrap_or_default());
        }
    });
    let mut salsa = o.salsa;
    let p = salsa.xor(&all);
    sym::check(p == a.repeat(3 * (versions + 1)).as_bytes(), "consecutive key stream");
    sym::reach(1);
}

/// Long protected values, everywhere.
pub fn h_protected_long() {
    let mut d = db();
    let mut e = full_entry(1);
    let n = [1000usize, 4096, 4097, 20000][sym::pick(4, "len")];
    let t = "~".repeat(n);
    let k = sym::pick(7, "place");
    if k < 6 {
        let key = [StringKey::Password, StringKey::Notes, StringKey::Title, StringKey::Url, StringKey::Username, StringKey::from_string("more")][k].clone();
        e.strings.insert(key, value(t, true));
    } else {
        e.binaries.insert(BinaryKey("b".into()), BinaryValue::Protected(SecStr::from(t)));
    }
    if sym::pick(2, "history") == 1 {
        let mut now = full_entry(3);
        now.history.push(e);
        e = now;
    }
    d.root_group.entries.push(e);
    let f = save(&d);
    crate::conform::conforms(&d, &f, &kdbx::password_key(PW.as_bytes()));
    sym::reach(1);
}

/// Attachments of entries, arbitrary bytes of each kind.
pub fn h_bin_entry() {
    let mut d = db();
    let mut e = full_entry(1);
    let n = [0usize, 1, 2, 3][sym::pick(4, "len")];
    let mk = |n| {
        let b = sym::bytes(n, "data");
        no_slash(&b);
        b
    };
    e.binaries.insert(BinaryKey("plain".into()), BinaryValue::Plain(mk(n)));
    e.binaries.insert(BinaryKey("prot".into()), BinaryValue::Protected(SecStr::new(sym::bytes(n, "prot"))));
    e.binaries.insert(BinaryKey(plain(2, "key")), BinaryValue::Ref(BinaryId(plain(2, "id"))));
    d.root_group.entries.push(e);
    finish(d);
}
/// Arbitrary bytes and names, one at a time.
pub fn h_bin_text() {
    let mut d = db();
    let mut e = full_entry(1);
    let n = if sym::tier() > 0 { 3 } else { 2 };
    let mut key = BinaryKey("key".into());
    let mut val = BinaryValue::Plain(vec![1, 2]);
    match sym::pick(5, "what") {
        0 => key.0 = text(n, "key"),
        1 => key.0 = String::new(),
        2 => val = BinaryValue::Ref(BinaryId(attr_text("id"))),
        3 => val = BinaryValue::Ref(BinaryId(String::new())),
        _ => val = BinaryValue::Plain(sym::bytes(3, "data")),
    }
    e.binaries.insert(key, val);
    d.root_group.entries.push(e);
    finish(d);
}
/// Text in an XML attribute: one arbitrary ASCII character among others (the
/// escaped length of two would be symbolic), or characters of other scripts.
pub fn attr_text(name: &str) -> String {
    match sym::pick(4, "script") {
        0 => "\u{e4}\u{20ac}\u{1f511}\u{85}\u{a0}\u{2028}".to_string(),
        1 => format!("a{}b", text(1, name)),
        2 => format!("{}&lt;", text(1, name)),
        _ => format!("<\"{}", text(1, name)),
    }
}
pub fn h_bin_long() {
    let mut d = db();
    let n = LENS[sym::pick(LENS.len() as u32, "len")];
    let mut e = full_entry(1);
    let mut b = vec![0u8; n];
    for (i, x) in b.iter_mut().enumerate() {
        *x = (i * 7) as u8;
    }
    if n > 0 {
        b[n - 1] = sym::u8v("last") & 15;
    }
    e.binaries.insert(BinaryKey("plain".into()), BinaryValue::Plain(b.clone()));
    e.binaries.insert(BinaryKey("prot".into()), BinaryValue::Protected(SecStr::new(b)));
    d.root_group.entries.push(e);
    finish(d);
}
/// Shared binaries (always compressed, hence concrete contents), arbitrary ids.
pub fn h_bin_shared() {
    let mut d = db();
    let n = [0usize, 1, 200, 70000][sym::pick(4, "len")];
    let mut b = vec![0u8; n];
    for (i, x) in b.iter_mut().enumerate() {
        *x = (i * i >> 3) as u8;
    }
    if n != 70000 {
        d.binaries.insert(BinaryId(plain(2, "id")), vec![9, 8, 7]);
        d.binaries.insert(BinaryId("z2".into()), vec![0xff; 3]);
        d.binaries.insert(BinaryId("z3".into()), vec![0xff; 3]);
        d.binaries.insert(BinaryId("z4".into()), b.clone());
    }
    d.binaries.insert(BinaryId("0".into()), b);
    finish(d);
}
pub fn h_bin_id() {
    let mut d = db();
    d.binaries.insert(BinaryId(attr_text("id")), vec![1, 2, 3]);
    finish(d);
}
pub fn h_icons() {
    let mut d = db();
    let n = sym::pick(4, "icons");
    for i in 0..n {
        let b = sym::bytes(i + 1, "data");
        no_slash(&b);
        d.custom_icons.insert(CustomIconUuid(uu(i as u8)), b);
    }
    d.custom_icons.insert(CustomIconUuid(uuid16("uuid")), vec![1]);
    d.custom_icons.insert(CustomIconUuid(uu(77)), vec![1]);
    finish(d);
}
pub fn h_icons_text() {
    let mut d = db();
    match sym::pick(3, "what") {
        0 => d.custom_icons.insert(CustomIconUuid(uu(1)), vec![]),
        1 => d.custom_icons.insert(CustomIconUuid(uu(1)), sym::bytes(3, "data")),
        _ => d.custom_icons.insert(CustomIconUuid(uuid3("uuid")), vec![1, 2]),
    };
    finish(d);
}
pub fn h_custom_data() {
    let mut d = db();
    let n = sym::pick(4, "items");
    for i in 0..n {
        d.custom_data.insert(format!("{}{}", plain(2, "key"), i), plain(3, "value"));
    }
    finish(d);
}
pub fn h_custom_data_text() {
    let mut d = db();
    let n = if sym::tier() > 0 { 3 } else { 2 };
    match sym::pick(4, "what") {
        0 => d.custom_data.insert(text(n, "key"), "value".into()),
        1 => d.custom_data.insert("key".into(), text(n, "value")),
        2 => d.custom_data.insert(String::new(), plain(1, "value")),
        _ => d.custom_data.insert(plain(1, "key"), String::new()),
    };
    finish(d);
}
