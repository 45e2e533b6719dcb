//! The tree of groups survives a save and an open.
use crate::gen::*;
use crate::model::*;
use crate::sym;
use kpdb::*;

fn finish(d: Database) {
    let b = round(&d);
    same_db(&d, &b);
    sym::reach(1);
}
fn attach(g: &mut Group, parent: &GroupUuid, sub: Group) -> Option<Group> {
    if g.uuid == *parent {
        g.groups.push(sub);
        return None;
    }
    let mut sub = sub;
    for k in g.groups.iter_mut() {
        match attach(k, parent, sub) {
            None => return None,
            Some(s) => sub = s,
        }
    }
    Some(sub)
}
/// A tree of `n` groups below the root of any shape; group i has number i.
pub fn any_tree(root: &mut Group, n: usize) {
    root.uuid = GroupUuid(uu(100));
    for i in 0..n {
        let p = sym::pick(i as u32 + 1, "parent");
        let parent = GroupUuid(uu(100 + p as u8));
        let sub = full_group(101 + i as u8);
        attach(root, &parent, sub);
    }
}
/// Every shape of up to three (four) groups below the root, entries in two of them.
pub fn h_tree_shape() {
    let mut d = db();
    let n = 1 + sym::pick(if sym::tier() > 0 { 4 } else { 3 }, "groups");
    any_tree(&mut d.root_group, n);
    let w = sym::pick(n as u32 + 1, "holder");
    fn put(g: &mut Group, u: GroupUuid) {
        if g.uuid == u {
            for i in 0..2 {
                let mut e = full_entry(g.entries.len() as u8 + i);
                e.associations.clear();
                e.override_url = plain(2, "url");
                g.entries.push(e);
            }
        }
        for s in g.groups.iter_mut() {
            put(s, u);
        }
    }
    put(&mut d.root_group, GroupUuid(uu(100 + w as u8)));
    put(&mut d.root_group, GroupUuid(uu(100 + n as u8)));
    finish(d);
}
/// Deep nesting and wide branching.
pub fn h_tree_deep() {
    let mut d = db();
    if sym::pick(2, "kind") == 0 {
        let mut g = full_group(30);
        g.name = plain(3, "leaf");
        g.entries.push(full_entry(1));
        for i in 0..12 {
            let mut o = full_group(31 + i);
            o.groups.push(g);
            o.entries.push(full_entry(60 + i));
            g = o;
        }
        d.root_group.groups.push(g);
    } else {
        for i in 0..10 {
            let mut g = full_group(30 + i);
            if i == 7 {
                g.name = plain(3, "name");
            }
            d.root_group.groups.push(g);
            d.root_group.entries.push(full_entry(60 + i));
        }
    }
    finish(d);
}
pub fn h_group_all() {
    let mut d = db();
    for i in 0..2 {
        let mut g = full_group(30 + i);
        g.name = plain(3, "name");
        g.notes = plain(3, "notes");
        g.def_auto_type_sequence = plain(3, "seq");
        g.usage_count = num3("usage");
        g.uuid = GroupUuid(uuid16("uuid"));
        g.custom_icon_uuid = Some(CustomIconUuid(uuid16("icon")));
        g.last_top_visible_entry = EntryUuid(uuid16("top"));
        g.last_modified = tod("t");
        d.root_group.groups.push(g);
    }
    finish(d);
}
pub fn h_group_text() {
    let mut d = db();
    let mut g = full_group(30);
    let s = text(if sym::tier() > 0 { 3 } else { 2 }, "text");
    match sym::pick(3, "field") {
        0 => g.name = s,
        1 => g.notes = s,
        _ => g.def_auto_type_sequence = s,
    }
    d.root_group.groups.push(g);
    finish(d);
}
pub fn h_group_num() {
    let mut d = db();
    let mut g = full_group(30);
    g.usage_count = num("n");
    d.root_group.groups.push(g);
    finish(d);
}
pub fn h_group_time() {
    let mut d = db();
    let mut g = full_group(30);
    let v = tod("t");
    match sym::pick(5, "field") {
        0 => g.creation_time = v,
        1 => g.expiry_time = v,
        2 => g.last_accessed = v,
        3 => g.last_modified = v,
        _ => g.location_changed = v,
    }
    d.root_group.groups.push(g);
    finish(d);
}
/// Options, flags and icons, at the root and below it.
pub fn h_group_opt() {
    let mut d = db();
    let mut g = full_group(30);
    let t = [None, Some(false), Some(true)];
    let k = sym::pick(29, "which");
    if k < 9 {
        g.enable_auto_type = t[k % 3];
        g.enable_searching = t[k / 3];
    } else if k < 13 {
        g.expires = k % 2 == 0;
        g.is_expanded = k / 2 % 2 == 0;
    } else {
        match k {
            13 => g.custom_icon_uuid = None,
            14 => {
                g.name = String::new();
                g.notes = String::new();
                g.def_auto_type_sequence = String::new();
            }
            15 => g.uuid = GroupUuid::nil(),
            16 => g = Group::default(),
            _ => {
                // every icon once
                for i in 0..6 {
                    let mut s = full_group(40 + i);
                    let n = ((k - 17) as i32 * 6 + i as i32) % 69;
                    match Icon::from_i32(n) {
                        Ok(i) => s.icon = i,
                        Err(_) => sym::check(false, "icon code"),
                    }
                    g.groups.push(s);
                }
            }
        }
    }
    if sym::pick(2, "place") == 0 {
        d.root_group.groups.push(g);
    } else {
        d.root_group = g;
    }
    finish(d);
}
/// Groups and entries that occur more than once.
pub fn h_tree_twins() {
    let mut d = db();
    let mut g = full_group(30);
    g.entries.push(full_entry(1));
    g.entries.push(full_entry(1));
    let mut h = g.clone();
    match sym::pick(4, "differs") {
        0 => {}
        1 => h.name = plain(3, "name"),
        2 => h.uuid = d.root_group.uuid,
        _ => h.entries[0].uuid = EntryUuid(uuid16("uuid")),
    }
    g.groups.push(h.clone());
    d.root_group.groups.push(g);
    d.root_group.groups.push(h);
    d.root_group.entries.push(full_entry(1));
    finish(d);
}
