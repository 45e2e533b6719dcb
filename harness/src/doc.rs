//! A reference writer of documents: a database as another program would lay
//! it out, in several styles, all of them valid.
use crate::conform::{dec, hex, iso, key_name};
use crate::kdbx::{self, Node, Params};
use kpdb::*;
use std::io::Write;

#[derive(Clone, Copy, Default)]
pub struct Style {
    /// Kinds of elements in reverse order.
    pub reverse: bool,
    /// 0 none, 1 line breaks and tabs, 2 line breaks with carriage returns and comments.
    pub space: u8,
    /// 0 True/False, 1 true/false, 2 TRUE/FALSE.
    pub bools: u8,
    /// Elements and attributes the crate has no use for.
    pub unknown: bool,
    /// `<A></A>` instead of `<A/>`, single quotes, spaces in tags.
    pub long: bool,
    /// 0 none, 1 XML declaration, 2 byte order mark and declaration.
    pub prolog: u8,
    /// Upper-case digits of colors.
    pub upper: bool,
    /// Escapes: 0 named, 1 decimal, 2 hexadecimal.
    pub escape: u8,
    /// Optional elements without a value are left out.
    pub sparse: bool,
    /// Shared binaries: 0 compressed, 1 plain, 2 plain with Compressed="False", 3 protected.
    pub pool: u8,
    /// Plain strings that are not protected in the file but in memory.
    pub in_memory: bool,
    /// Text: 0 escaped, 1 with a comment inside, 2 in a CDATA section.
    pub wrap: u8,
    /// Attachments of some size within an entry are compressed.
    pub packed: bool,
}

fn el(tag: &str, text: Vec<u8>) -> Node {
    Node { tag: tag.into(), attrs: vec![], text, kids: vec![] }
}
/// An element whose text needs no escaping.
fn lit(tag: &str, text: Vec<u8>) -> Node {
    attr(el(tag, text), RAW, b"")
}
const RAW: &str = "(raw)";
fn parent(tag: &str, kids: Vec<Node>) -> Node {
    Node { tag: tag.into(), attrs: vec![], text: vec![], kids }
}
fn attr(mut n: Node, k: &str, v: &[u8]) -> Node {
    n.attrs.push((k.into(), v.to_vec()));
    n
}
impl Style {
    fn boolean(&self, tag: &str, v: Option<bool>) -> Node {
        let t = match (v, self.bools) {
            (None, 1) => "null",
            (None, 2) => "NULL",
            (None, _) => "Null",
            (Some(true), 1) => "true",
            (Some(true), 2) => "TRUE",
            (Some(true), _) => "True",
            (Some(false), 1) => "false",
            (Some(false), 2) => "FALSE",
            (Some(false), _) => "False",
        };
        el(tag, t.into())
    }
    fn yes(&self) -> &'static [u8] {
        match self.bools {
            0 => b"True",
            1 => b"true",
            _ => b"TRUE",
        }
    }
    fn opt(&self, k: &mut Vec<Node>, tag: &str, v: Option<Vec<u8>>) {
        let raw = tag.ends_with("Color") || tag == "CustomIconUUID";
        match v {
            Some(v) => {
                if !(self.sparse && v.is_empty()) {
                    k.push(if raw { lit(tag, v) } else { el(tag, v) })
                }
            }
            None => {
                if !self.sparse {
                    k.push(el(tag, vec![]))
                }
            }
        }
    }
    fn color(&self, c: &Option<Color>) -> Option<Vec<u8>> {
        c.as_ref().map(|c| if self.upper { hex(c).to_ascii_uppercase() } else { hex(c) })
    }
    fn times<T: Times>(&self, t: &T) -> Node {
        parent(
            "Times",
            vec![
                lit("LastModificationTime", iso(&t.last_modified())),
                lit("CreationTime", iso(&t.creation_time())),
                lit("LastAccessTime", iso(&t.last_accessed())),
                lit("ExpiryTime", iso(&t.expiry_time())),
                self.boolean("Expires", Some(t.expires())),
                lit("UsageCount", dec(t.usage_count())),
                lit("LocationChanged", iso(&t.location_changed())),
            ],
        )
    }
    fn strings(&self, s: &StringsMap) -> Vec<Node> {
        let mut v: Vec<_> = s.iter().map(|(k, v)| (key_name(k).to_string(), v)).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v.into_iter()
            .map(|(k, v)| {
                let x = match v {
                    StringValue::Plain(s) => el("Value", s.as_bytes().to_vec()),
                    StringValue::Protected(s) => {
                        let n = el("Value", s.unsecure().to_vec());
                        if self.in_memory {
                            attr(n, "ProtectInMemory", self.yes())
                        } else {
                            attr(n, "Protected", self.yes())
                        }
                    }
                };
                parent("String", vec![el("Key", k.into()), x])
            })
            .collect()
    }
    fn binaries(&self, b: &std::collections::HashMap<BinaryKey, BinaryValue>) -> Vec<Node> {
        let mut v: Vec<_> = b.iter().collect();
        v.sort_by(|a, b| a.0 .0.cmp(&b.0 .0));
        v.into_iter()
            .map(|(k, v)| {
                let x = match v {
                    BinaryValue::Plain(b) if self.packed && b.len() > 20 => attr(lit("Value", kdbx::b64(&gzip(b))), "Compressed", self.yes()),
                    BinaryValue::Plain(b) => lit("Value", kdbx::b64(b)),
                    BinaryValue::Protected(s) => attr(el("Value", s.unsecure().to_vec()), "Protected", self.yes()),
                    BinaryValue::Ref(i) => attr(el("Value", vec![]), "Ref", i.0.as_bytes()),
                };
                parent("Binary", vec![el("Key", k.0.clone().into_bytes()), x])
            })
            .collect()
    }
    fn custom(&self, k: &mut Vec<Node>) {
        if self.unknown {
            k.push(parent(
                "CustomData",
                vec![parent("Item", vec![el("Key", b"plugin".to_vec()), el("Value", b"something".to_vec())])],
            ));
            k.push(el("PreviousParentGroup", b"AAAAAAAAAAAAAAAAAAAAAA==".to_vec()));
        }
    }
    pub fn entry(&self, e: &Entry) -> Node {
        let mut k = vec![lit("UUID", kdbx::b64(e.uuid.0.as_bytes())), lit("IconID", dec(e.icon.to_i32()))];
        self.opt(&mut k, "CustomIconUUID", e.custom_icon_uuid.as_ref().map(|u| kdbx::b64(u.0.as_bytes())));
        self.opt(&mut k, "ForegroundColor", self.color(&e.foreground_color));
        self.opt(&mut k, "BackgroundColor", self.color(&e.background_color));
        self.opt(&mut k, "OverrideURL", Some(e.override_url.clone().into_bytes()));
        if self.unknown {
            k.push(self.boolean("QualityCheck", Some(false)));
        }
        self.opt(&mut k, "Tags", Some(e.tags.clone().into_bytes()));
        self.custom(&mut k);
        k.push(self.times(e));
        k.extend(self.strings(&e.strings));
        k.extend(self.binaries(&e.binaries));
        let mut a = vec![self.boolean("Enabled", Some(e.auto_type_enabled)), lit("DataTransferObfuscation", dec(e.auto_type_obfuscation.to_i32()))];
        self.opt(&mut a, "DefaultSequence", Some(e.auto_type_def_sequence.clone().into_bytes()));
        for x in &e.associations {
            a.push(parent(
                "Association",
                vec![el("Window", x.window.clone().into_bytes()), el("KeystrokeSequence", x.keystroke_sequence.clone().into_bytes())],
            ));
        }
        k.push(parent("AutoType", a));
        if !(self.sparse && e.history.is_empty()) {
            k.push(parent("History", e.history.iter().map(|h| self.entry(h)).collect()));
        }
        parent("Entry", k)
    }
    pub fn group(&self, g: &Group) -> Node {
        let mut k = vec![lit("UUID", kdbx::b64(g.uuid.0.as_bytes())), el("Name", g.name.clone().into_bytes())];
        self.opt(&mut k, "Notes", Some(g.notes.clone().into_bytes()));
        k.push(lit("IconID", dec(g.icon.to_i32())));
        self.opt(&mut k, "CustomIconUUID", g.custom_icon_uuid.as_ref().map(|u| kdbx::b64(u.0.as_bytes())));
        k.push(self.times(g));
        k.push(self.boolean("IsExpanded", Some(g.is_expanded)));
        self.opt(&mut k, "DefaultAutoTypeSequence", Some(g.def_auto_type_sequence.clone().into_bytes()));
        k.push(self.boolean("EnableAutoType", g.enable_auto_type));
        k.push(self.boolean("EnableSearching", g.enable_searching));
        k.push(lit("LastTopVisibleEntry", kdbx::b64(g.last_top_visible_entry.0.as_bytes())));
        self.custom(&mut k);
        k.extend(g.entries.iter().map(|e| self.entry(e)));
        k.extend(g.groups.iter().map(|s| self.group(s)));
        parent("Group", k)
    }
    pub fn meta(&self, d: &Database, header_hash: Option<&[u8]>) -> Node {
        let mut k = vec![el("Generator", d.generator.clone().into_bytes())];
        if let Some(h) = header_hash {
            k.push(lit("HeaderHash", kdbx::b64(h)));
        }
        if self.unknown {
            k.push(el("SettingsChanged", b"2009-02-13T23:31:30Z".to_vec()));
        }
        self.opt(&mut k, "DatabaseName", Some(d.name.clone().into_bytes()));
        k.push(lit("DatabaseNameChanged", iso(&d.name_changed)));
        self.opt(&mut k, "DatabaseDescription", Some(d.description.clone().into_bytes()));
        k.push(lit("DatabaseDescriptionChanged", iso(&d.description_changed)));
        self.opt(&mut k, "DefaultUserName", Some(d.def_username.clone().into_bytes()));
        k.push(lit("DefaultUserNameChanged", iso(&d.def_username_changed)));
        k.push(lit("MaintenanceHistoryDays", dec(d.maintenance_history_days)));
        self.opt(&mut k, "Color", self.color(&d.color));
        k.push(lit("MasterKeyChanged", iso(&d.master_key_changed)));
        k.push(lit("MasterKeyChangeRec", dec(d.master_key_change_rec)));
        k.push(lit("MasterKeyChangeForce", dec(d.master_key_change_force)));
        k.push(parent(
            "MemoryProtection",
            vec![
                self.boolean("ProtectTitle", Some(d.protect_title)),
                self.boolean("ProtectUserName", Some(d.protect_username)),
                self.boolean("ProtectPassword", Some(d.protect_password)),
                self.boolean("ProtectURL", Some(d.protect_url)),
                self.boolean("ProtectNotes", Some(d.protect_notes)),
            ],
        ));
        let mut v: Vec<_> = d.custom_icons.iter().collect();
        v.sort_by(|a, b| a.1.len().cmp(&b.1.len()));
        let icon = |x: &(&CustomIconUuid, &Vec<u8>)| {
            parent("Icon", vec![lit("UUID", kdbx::b64(x.0 .0.as_bytes())), lit("Data", kdbx::b64(x.1))])
        };
        k.push(parent("CustomIcons", v.iter().map(icon).collect()));
        k.push(self.boolean("RecycleBinEnabled", Some(d.recycle_bin_enabled)));
        k.push(lit("RecycleBinUUID", kdbx::b64(d.recycle_bin_uuid.0.as_bytes())));
        k.push(lit("RecycleBinChanged", iso(&d.recycle_bin_changed)));
        k.push(lit("EntryTemplatesGroup", kdbx::b64(d.entry_templates_group_uuid.0.as_bytes())));
        k.push(lit("EntryTemplatesGroupChanged", iso(&d.entry_templates_group_changed)));
        k.push(lit("HistoryMaxItems", dec(d.history_max_items)));
        k.push(lit("HistoryMaxSize", dec(d.history_max_size)));
        k.push(lit("LastSelectedGroup", kdbx::b64(d.last_selected_group.0.as_bytes())));
        k.push(lit("LastTopVisibleGroup", kdbx::b64(d.last_top_visible_group.0.as_bytes())));
        let mut v: Vec<_> = d.binaries.iter().collect();
        v.sort();
        let mut b = vec![];
        for (id, data) in v {
            let n = match self.pool {
                0 => attr(lit("Binary", kdbx::b64(&gzip(data))), "Compressed", self.yes()),
                1 => lit("Binary", kdbx::b64(data)),
                2 => attr(lit("Binary", kdbx::b64(data)), "Compressed", b"False"),
                _ => attr(el("Binary", data.clone()), "Protected", self.yes()),
            };
            b.push(attr(n, "ID", id.0.as_bytes()));
        }
        k.push(parent("Binaries", b));
        let mut v: Vec<_> = d.custom_data.iter().collect();
        v.sort_by(|a, b| a.0.cmp(b.0));
        let item = |x: &(&String, &String)| {
            parent("Item", vec![el("Key", x.0.clone().into_bytes()), el("Value", x.1.clone().into_bytes())])
        };
        k.push(parent("CustomData", v.iter().map(item).collect()));
        parent("Meta", k)
    }
    pub fn tree(&self, d: &Database, header_hash: Option<&[u8]>) -> Node {
        let mut root = vec![self.group(&d.root_group)];
        if self.unknown {
            let o = parent(
                "DeletedObject",
                vec![el("UUID", b"AAAAAAAAAAAAAAAAAAAAAA==".to_vec()), el("DeletionTime", b"2009-02-13T23:31:30Z".to_vec())],
            );
            root.push(parent("DeletedObjects", vec![o]));
        }
        let mut r = parent("KeePassFile", vec![self.meta(d, header_hash), parent("Root", root)]);
        if self.reverse {
            reverse(&mut r);
        }
        r
    }
    fn put_text(&self, o: &mut Vec<u8>, t: &[u8]) {
        for c in t {
            let e: &[u8] = match (*c, self.escape) {
                (b'<', 0) => b"&lt;",
                (b'<', 1) => b"&#60;",
                (b'<', _) => b"&#x3C;",
                (b'&', 0) => b"&amp;",
                (b'&', 1) => b"&#38;",
                (b'&', _) => b"&#x26;",
                (b'>', 0) => b"&gt;",
                (b'>', 1) => b"&#62;",
                (b'>', _) => b"&#x3e;",
                (b'"', 0) => b"&quot;",
                (b'"', _) => b"&#x00000022;",
                (b'\'', 0) => b"&apos;",
                (b'\'', _) => b"&#0039;",
                (b'\r', 1) => b"&#13;",
                (b'\r', _) => b"&#xD;",
                (c, _) => {
                    o.push(c);
                    continue;
                }
            };
            o.extend_from_slice(e);
        }
    }
    fn put(&self, o: &mut Vec<u8>, n: &Node, s: &mut kdbx::Salsa, depth: usize) {
        o.push(b'<');
        o.extend_from_slice(n.tag.as_bytes());
        let q = if self.long { b'\'' } else { b'"' };
        let mut protected = false;
        let mut raw = false;
        // attributes of no meaning, the names of which are nearly those of others
        let mut attrs = vec![];
        let more = self.unknown && n.kids.is_empty();
        if more {
            let v: &[u8] = if n.attr("Protected").is_some() || n.attr("Compressed").is_some() { b"False" } else { b"True" };
            for k in ["ProtectedBy", "Identity", "CompressedSize", "Reference", "ProtectInMemoryOnly", "xml:space"] {
                attrs.push((k.to_string(), if k == "xml:space" { b"preserve".to_vec() } else { v.to_vec() }));
            }
        }
        attrs.extend(n.attrs.iter().cloned());
        if more {
            for (k, v) in [("XProtected", "True"), ("Compress", "True"), ("I", "9"), ("Re", "9"), ("Protect", "True"), ("UnCompressed", "true")] {
                attrs.push((k.into(), v.into()));
            }
        }
        for (k, v) in &attrs {
            if k == RAW {
                raw = true;
                continue;
            }
            protected |= k == "Protected";
            o.extend_from_slice(if self.long { b"\n " } else { b" " });
            o.extend_from_slice(k.as_bytes());
            o.extend_from_slice(if self.long { b" = " } else { b"=" });
            o.push(q);
            self.put_text(o, v);
            o.push(q);
        }
        if n.kids.is_empty() && n.text.is_empty() && !self.long {
            o.extend_from_slice(b"/>");
            return;
        }
        if self.long {
            o.push(b' ');
        }
        o.push(b'>');
        if n.kids.is_empty() {
            if protected {
                let c = s.xor(&n.text);
                o.extend_from_slice(&kdbx::b64(&c));
            } else if raw {
                o.extend_from_slice(&n.text);
            } else if self.wrap == 1 && n.text.len() > 1 && n.text[1] < 128 {
                // between the first character and the second, or before them
                self.put_text(o, &n.text[..(n.text[0] < 128) as usize]);
                o.extend_from_slice(b"<!-- a <Comment> & more -->");
                self.put_text(o, &n.text[(n.text[0] < 128) as usize..]);
            } else if self.wrap == 2 && !n.text.is_empty() && !n.text.contains(&b'\r') {
                let mut open = false;
                for (i, c) in n.text.iter().enumerate() {
                    if open && *c == b'>' && i > 1 && &n.text[i - 2..i] == b"]]" {
                        o.extend_from_slice(b"]]>");
                        open = false;
                    }
                    if !open {
                        o.extend_from_slice(b"<![CDATA[");
                        open = true;
                    }
                    o.push(*c);
                }
                o.extend_from_slice(b"]]>");
            } else {
                self.put_text(o, &n.text);
            }
        } else {
            for k in &n.kids {
                self.gap(o, depth + 1);
                self.put(o, k, s, depth + 1);
            }
            self.gap(o, depth);
        }
        o.extend_from_slice(b"</");
        o.extend_from_slice(n.tag.as_bytes());
        if self.long {
            o.push(b' ');
        }
        o.push(b'>');
    }
    fn gap(&self, o: &mut Vec<u8>, depth: usize) {
        match self.space {
            0 => {}
            1 => {
                o.push(b'\n');
                for _ in 0..depth {
                    o.push(b'\t');
                }
            }
            _ => o.extend_from_slice(b"\r\n <!-- between <Elements> -->  "),
        }
    }
    pub fn xml(&self, n: &Node, stream_key: &[u8; 32]) -> Vec<u8> {
        let mut o = vec![];
        if self.prolog == 2 {
            o.extend_from_slice(&[0xef, 0xbb, 0xbf]);
        }
        if self.prolog > 0 {
            o.extend_from_slice(b"<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>");
        }
        self.gap(&mut o, 0);
        self.put(&mut o, n, &mut kdbx::Salsa::new(stream_key), 0);
        self.gap(&mut o, 0);
        o
    }
    /// The whole file, with the header hash in the document.
    pub fn file(&self, d: &Database, p: &Params, key: &[u8; 32]) -> Vec<u8> {
        let h = p.header();
        let hash = crate::sym::sha256(&h);
        let x = self.xml(&self.tree(d, Some(&hash)), &p.stream_key);
        p.seal(&h, key, &kdbx::cat(&[&p.start, &kdbx::blocks(&[&x])]))
    }
}
/// The kinds of children in reverse order; equal ones stay in order.
fn reverse(n: &mut Node) {
    let mut tags: Vec<String> = vec![];
    for k in &n.kids {
        if !tags.contains(&k.tag) {
            tags.push(k.tag.clone());
        }
    }
    let mut v = vec![];
    for t in tags.iter().rev() {
        v.extend(n.kids.iter().filter(|k| k.tag == *t).cloned());
    }
    for k in v.iter_mut() {
        reverse(k);
    }
    n.kids = v;
}
pub fn gzip(data: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}
