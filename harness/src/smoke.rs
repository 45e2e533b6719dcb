use crate::sym;
use kpdb::*;
pub fn h_smoke_open() {
    let data: &[u8] = include_bytes!("../../../repo/data/db-password.kdbx");
    let mut r = std::io::Cursor::new(data);
    let key = CompositeKey::from_password("test");
    match Database::open(&mut r, &key) {
        Ok(db) => {
            sym::observe(db.name.as_bytes());
            let mut out = Vec::new();
            db.save(&mut out).unwrap();
            sym::reach(1);
        }
        Err(e) => {
            sym::observe(format!("{}", e).as_bytes());
        }
    }
}
pub fn h_smoke_new() {
    let key = CompositeKey::from_password("test");
    let mut db = Database::new(&key);
    db.compression = Compression::None;
    db.transform_rounds = TransformRounds(2);
    let n = sym::bytes(2, "name");
    sym::assume(n[0] >= 97 && n[0] <= 122 && n[1] >= 97 && n[1] <= 122);
    db.name = String::from_utf8(n).unwrap();
    let mut out = Vec::new();
    db.save(&mut out).unwrap();
    let db2 = Database::open(&mut std::io::Cursor::new(out), &key).unwrap();
    sym::check(db.name == db2.name, "name round trip");
    sym::observe(db2.name.as_bytes());
    sym::reach(1);
}

/// Concrete: everything the executor does must agree with the machine.
pub fn h_smoke_agree() {
    let k = sym::pick(3, "k");
    let key = CompositeKey::from_password("test");
    let mut db = Database::new(&key);
    sym::aesni(k != 1);
    db.compression = if k == 2 { Compression::GZip } else { Compression::None };
    db.transform_rounds = TransformRounds(20);
    db.name = "n\u{e4}me & <tag>".to_string();
    let mut g = Group::new("one");
    let mut e = Entry::new();
    e.set_title("title");
    e.set_password("secret");
    g.add_entry(e);
    db.root_group.add_group(g);
    let mut out = Vec::new();
    db.save(&mut out).unwrap();
    sym::observe(&out[..64]);
    sym::observe(&sym::sha256(&out));
    let db2 = Database::open(&mut std::io::Cursor::new(out), &key).unwrap();
    sym::check(db == db2, "concrete round trip");
    sym::observe(format!("{:?}", db2.root_group.creation_time).as_bytes());
    sym::reach(1);
}

