//! An independent reading and writing of the KDBX 3.1 container, written from
//! the format and not from the crate under test. The primitives (SHA-256 and
//! one AES block) come from the executor, or from its own implementation when
//! the harness runs natively.
use crate::sym;

pub const SIG: [u8; 8] = [0x03, 0xd9, 0xa2, 0x9a, 0x67, 0xfb, 0x4b, 0xb5];
pub const AES_ID: [u8; 16] =
    [0x31, 0xc1, 0xf2, 0xe6, 0xbf, 0x71, 0x43, 0x50, 0xbe, 0x58, 0x05, 0x21, 0x6a, 0xfc, 0x5a, 0xff];

pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = Vec::new();
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}
pub fn sha(parts: &[&[u8]]) -> [u8; 32] {
    sym::sha256(&cat(parts))
}

/// Everything needed to lay out a file.
#[derive(Clone)]
pub struct Params {
    pub minor: u16,
    pub major: u16,
    pub comment: Option<Vec<u8>>,
    pub cipher: [u8; 16],
    pub compression: u32,
    pub master_seed: [u8; 32],
    pub transform_seed: [u8; 32],
    pub rounds: u64,
    pub iv: [u8; 16],
    pub stream_key: [u8; 32],
    pub start: [u8; 32],
    pub stream_cipher: u32,
}
impl Params {
    pub fn new() -> Params {
        let mk = |s: u8| {
            let mut a = [0u8; 32];
            for (i, b) in a.iter_mut().enumerate() {
                *b = s.wrapping_mul(37).wrapping_add((i as u8).wrapping_mul(11));
            }
            a
        };
        let mut iv = [0u8; 16];
        iv.copy_from_slice(&mk(5)[..16]);
        Params {
            minor: 1,
            major: 3,
            comment: None,
            cipher: AES_ID,
            compression: 0,
            master_seed: mk(1),
            transform_seed: mk(2),
            rounds: 1,
            iv,
            stream_key: mk(3),
            start: mk(4),
            stream_cipher: 2,
        }
    }
    pub fn items(&self) -> Vec<(u8, Vec<u8>)> {
        let mut v = vec![];
        if let Some(ref c) = self.comment {
            v.push((1, c.clone()));
        }
        v.push((2, self.cipher.to_vec()));
        v.push((3, self.compression.to_le_bytes().to_vec()));
        v.push((4, self.master_seed.to_vec()));
        v.push((5, self.transform_seed.to_vec()));
        v.push((6, self.rounds.to_le_bytes().to_vec()));
        v.push((7, self.iv.to_vec()));
        v.push((8, self.stream_key.to_vec()));
        v.push((9, self.start.to_vec()));
        v.push((10, self.stream_cipher.to_le_bytes().to_vec()));
        v
    }
    pub fn header(&self) -> Vec<u8> {
        self.header_of(&self.items(), &[13, 10, 13, 10])
    }
    pub fn header_of(&self, items: &[(u8, Vec<u8>)], end: &[u8]) -> Vec<u8> {
        let mut h = cat(&[&SIG, &self.minor.to_le_bytes(), &self.major.to_le_bytes()]);
        for (id, d) in items {
            h.push(*id);
            h.extend_from_slice(&(d.len() as u16).to_le_bytes());
            h.extend_from_slice(d);
        }
        h.push(0);
        h.extend_from_slice(&(end.len() as u16).to_le_bytes());
        h.extend_from_slice(end);
        h
    }
    pub fn master_key(&self, composite: &[u8; 32]) -> [u8; 32] {
        master_key(composite, &self.master_seed, &self.transform_seed, self.rounds)
    }
    /// A complete file around a header and the plaintext payload (start bytes included).
    pub fn seal(&self, header: &[u8], composite: &[u8; 32], payload: &[u8]) -> Vec<u8> {
        let k = self.master_key(composite);
        let mut f = header.to_vec();
        f.extend_from_slice(&cbc_encrypt(&k, &self.iv, &pad(payload)));
        f
    }
    /// A complete uncompressed single-block file for an XML document.
    pub fn file(&self, composite: &[u8; 32], xml: &[u8]) -> Vec<u8> {
        let h = self.header();
        self.seal(&h, composite, &cat(&[&self.start, &blocks(&[xml])]))
    }
    pub fn salsa(&self) -> Salsa {
        Salsa::new(&self.stream_key)
    }
}

pub fn transform(composite: &[u8; 32], seed: &[u8; 32], rounds: u64) -> [u8; 32] {
    let mut a = *composite;
    for _ in 0..rounds {
        let l = sym::aes(seed, &a[..16], true);
        let r = sym::aes(seed, &a[16..], true);
        a[..16].copy_from_slice(&l);
        a[16..].copy_from_slice(&r);
    }
    sym::sha256(&a)
}
pub fn master_key(composite: &[u8; 32], mseed: &[u8; 32], tseed: &[u8; 32], rounds: u64) -> [u8; 32] {
    let t = transform(composite, tseed, rounds);
    sha(&[mseed, &t])
}
pub fn password_key(pw: &[u8]) -> [u8; 32] {
    sym::sha256(&sym::sha256(pw))
}
pub fn file_key(key: &[u8]) -> [u8; 32] {
    sym::sha256(key)
}
pub fn both_key(pw: &[u8], key: &[u8]) -> [u8; 32] {
    sha(&[&sym::sha256(pw), key])
}
pub fn pad(p: &[u8]) -> Vec<u8> {
    let n = 16 - p.len() % 16;
    let mut v = p.to_vec();
    v.resize(p.len() + n, n as u8);
    v
}
pub fn cbc_encrypt(key: &[u8; 32], iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
    let mut prev = *iv;
    let mut out = Vec::with_capacity(data.len());
    for c in data.chunks(16) {
        let mut b = [0u8; 16];
        for i in 0..16 {
            b[i] = c[i] ^ prev[i];
        }
        prev = sym::aes(key, &b, true);
        out.extend_from_slice(&prev);
    }
    out
}
pub fn cbc_decrypt(key: &[u8; 32], iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
    let mut prev: Vec<u8> = iv.to_vec();
    let mut out = Vec::with_capacity(data.len());
    for c in data.chunks(16) {
        let p = sym::aes(key, c, false);
        for i in 0..16 {
            out.push(p[i] ^ prev[i]);
        }
        prev = c.to_vec();
    }
    out
}
pub fn block(id: u32, data: &[u8]) -> Vec<u8> {
    cat(&[&id.to_le_bytes(), &sym::sha256(data), &(data.len() as u32).to_le_bytes(), data])
}
pub fn last_block(id: u32) -> Vec<u8> {
    cat(&[&id.to_le_bytes(), &[0u8; 32], &0u32.to_le_bytes()])
}
pub fn blocks(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    for (i, p) in parts.iter().enumerate() {
        v.extend_from_slice(&block(i as u32, p));
    }
    v.extend_from_slice(&last_block(parts.len() as u32));
    v
}

/// What a file turned out to contain.
pub struct Opened {
    pub minor: u16,
    pub major: u16,
    pub items: Vec<(u8, Vec<u8>)>,
    pub end: Vec<u8>,
    pub header_hash: [u8; 32],
    pub header_len: usize,
    pub nblocks: usize,
    pub xml: Vec<u8>,
    pub salsa: Salsa,
}
impl Opened {
    pub fn item(&self, id: u8) -> &[u8] {
        &self.items.iter().find(|i| i.0 == id).expect("header item").1
    }
}
fn arr32(b: &[u8]) -> Result<[u8; 32], &'static str> {
    if b.len() != 32 {
        return Err("a header field has the wrong size");
    }
    let mut a = [0; 32];
    a.copy_from_slice(b);
    Ok(a)
}
fn get<'a>(f: &'a [u8], at: usize, n: usize) -> Result<&'a [u8], &'static str> {
    if at + n > f.len() {
        return Err("the file ends early");
    }
    Ok(&f[at..at + n])
}
fn u16at(f: &[u8], at: usize) -> Result<usize, &'static str> {
    let b = get(f, at, 2)?;
    Ok(b[0] as usize | (b[1] as usize) << 8)
}
fn u32at(f: &[u8], at: usize) -> Result<u32, &'static str> {
    let b = get(f, at, 4)?;
    Ok(u32::from_le_bytes([b[0], b[1], b[2], b[3]]))
}
/// The strict reader: any deviation from the format is an error.
pub fn open(f: &[u8], composite: &[u8; 32]) -> Result<Opened, &'static str> {
    if get(f, 0, 8)? != &SIG[..] {
        return Err("wrong signature");
    }
    let minor = u16at(f, 8)? as u16;
    let major = u16at(f, 10)? as u16;
    let mut at = 12;
    let mut items: Vec<(u8, Vec<u8>)> = vec![];
    let end;
    loop {
        let id = get(f, at, 1)?[0];
        let n = u16at(f, at + 1)?;
        let d = get(f, at + 3, n)?.to_vec();
        at += 3 + n;
        if id == 0 {
            end = d;
            break;
        }
        if items.iter().any(|i| i.0 == id) {
            return Err("a header field occurs twice");
        }
        items.push((id, d));
    }
    let find = |id: u8| items.iter().find(|i| i.0 == id).map(|i| i.1.clone()).ok_or("a header field is missing");
    if find(2)? != AES_ID {
        return Err("unknown cipher");
    }
    let comp = find(3)?;
    let mseed = arr32(&find(4)?)?;
    let tseed = arr32(&find(5)?)?;
    let r = find(6)?;
    let iv = find(7)?;
    let psk = arr32(&find(8)?)?;
    let start = arr32(&find(9)?)?;
    if find(10)? != [2, 0, 0, 0] {
        return Err("unknown stream cipher");
    }
    if comp.len() != 4 || r.len() != 8 || iv.len() != 16 || comp[0] > 1 || comp[1..] != [0, 0, 0] {
        return Err("a header field is malformed");
    }
    let mut iva = [0u8; 16];
    iva.copy_from_slice(&iv);
    let mut ra = [0u8; 8];
    ra.copy_from_slice(&r);
    let k = master_key(composite, &mseed, &tseed, u64::from_le_bytes(ra));
    let body = &f[at..];
    if body.is_empty() || body.len() % 16 != 0 {
        return Err("the encrypted part is not a whole number of blocks");
    }
    let mut p = cbc_decrypt(&k, &iva, body);
    let n = p[p.len() - 1] as usize;
    if n == 0 || n > 16 || p[p.len() - n..].iter().any(|b| *b as usize != n) {
        return Err("wrong padding");
    }
    p.truncate(p.len() - n);
    if get(&p, 0, 32)? != &start[..] {
        return Err("the stream start bytes do not match");
    }
    let mut q = 32;
    let mut xml = vec![];
    let mut id = 0;
    loop {
        if u32at(&p, q)? != id {
            return Err("wrong block id");
        }
        let h = get(&p, q + 4, 32)?;
        let n = u32at(&p, q + 36)? as usize;
        let d = get(&p, q + 40, n)?;
        q += 40 + n;
        if n == 0 {
            if h != &[0u8; 32][..] {
                return Err("the final block's hash is not zero");
            }
            break;
        }
        if h != &sym::sha256(d)[..] {
            return Err("wrong block hash");
        }
        xml.extend_from_slice(d);
        id += 1;
    }
    if q != p.len() {
        return Err("data after the final block");
    }
    if comp[0] == 1 {
        use std::io::Read;
        let mut o = vec![];
        flate2::read::GzDecoder::new(&xml[..]).read_to_end(&mut o).map_err(|_| "not gzip data")?;
        xml = o;
    }
    Ok(Opened {
        minor,
        major,
        end,
        header_hash: sym::sha256(&f[..at]),
        header_len: at,
        nblocks: id as usize,
        xml,
        salsa: Salsa::new(&psk),
        items,
    })
}

/// Salsa20 with the key hashed and the fixed nonce, as KDBX 3.1 uses it.
pub struct Salsa {
    key: [u8; 32],
    ctr: u64,
    buf: [u8; 64],
    at: usize,
}
impl Salsa {
    pub fn new(stream_key: &[u8; 32]) -> Salsa {
        Salsa { key: sym::sha256(stream_key), ctr: 0, buf: [0; 64], at: 64 }
    }
    fn refill(&mut self) {
        let nonce = [0xe8u8, 0x30, 0x09, 0x4b, 0x97, 0x20, 0x5d, 0x2a];
        let w = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        let c = b"expand 32-byte k";
        let k = &self.key;
        let mut s = [0u32; 16];
        for i in 0..4 {
            s[5 * i] = w(&c[4 * i..]);
            s[1 + i] = w(&k[4 * i..]);
            s[11 + i] = w(&k[16 + 4 * i..]);
        }
        s[6] = w(&nonce[..4]);
        s[7] = w(&nonce[4..]);
        s[8] = self.ctr as u32;
        s[9] = (self.ctr >> 32) as u32;
        let mut x = s;
        for _ in 0..10 {
            for t in [
                [0usize, 4, 8, 12], [5, 9, 13, 1], [10, 14, 2, 6], [15, 3, 7, 11],
                [0, 1, 2, 3], [5, 6, 7, 4], [10, 11, 8, 9], [15, 12, 13, 14],
            ] {
                let [a, b, c, d] = t;
                x[b] ^= x[a].wrapping_add(x[d]).rotate_left(7);
                x[c] ^= x[b].wrapping_add(x[a]).rotate_left(9);
                x[d] ^= x[c].wrapping_add(x[b]).rotate_left(13);
                x[a] ^= x[d].wrapping_add(x[c]).rotate_left(18);
            }
        }
        for i in 0..16 {
            self.buf[4 * i..4 * i + 4].copy_from_slice(&x[i].wrapping_add(s[i]).to_le_bytes());
        }
        self.ctr += 1;
        self.at = 0;
    }
    pub fn xor(&mut self, d: &[u8]) -> Vec<u8> {
        let mut o = Vec::with_capacity(d.len());
        for b in d {
            if self.at == 64 {
                self.refill();
            }
            o.push(b ^ self.buf[self.at]);
            self.at += 1;
        }
        o
    }
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in d.chunks(3) {
        let b1 = if c.len() > 1 { c[1] } else { 0 };
        let b2 = if c.len() > 2 { c[2] } else { 0 };
        o.push(B64[(c[0] >> 2) as usize]);
        o.push(B64[((c[0] & 3) << 4 | b1 >> 4) as usize]);
        o.push(if c.len() > 1 { B64[((b1 & 15) << 2 | b2 >> 6) as usize] } else { b'=' });
        o.push(if c.len() > 2 { B64[(b2 & 63) as usize] } else { b'=' });
    }
    o
}
fn unb64_tab() -> [u8; 256] {
    let mut t = [255u8; 256];
    for (i, c) in B64.iter().enumerate() {
        t[*c as usize] = i as u8;
    }
    t
}
/// Strict base64; None if malformed.
pub fn unb64(d: &[u8]) -> Option<Vec<u8>> {
    let t = unb64_tab();
    if d.len() % 4 != 0 {
        return None;
    }
    let mut o = vec![];
    let n = d.len() / 4;
    for (i, c) in d.chunks(4).enumerate() {
        let mut pads = 0;
        if i + 1 == n {
            if c[3] == b'=' {
                pads = 1;
                if c[2] == b'=' {
                    pads = 2;
                }
            }
        }
        let mut v = [0u8; 4];
        let mut bad = false;
        for j in 0..4 - pads {
            v[j] = t[c[j] as usize];
            bad |= v[j] == 255;
        }
        if bad {
            return None;
        }
        o.push(v[0] << 2 | v[1] >> 4);
        if pads < 2 {
            o.push(v[1] << 4 | v[2] >> 2);
        }
        if pads < 1 {
            o.push(v[2] << 6 | v[3]);
        }
    }
    Some(o)
}

/// A small XML tree, enough for what a database contains.
#[derive(Clone, Debug)]
pub struct Node {
    pub tag: String,
    pub attrs: Vec<(String, Vec<u8>)>,
    pub text: Vec<u8>,
    pub kids: Vec<Node>,
}
impl Node {
    pub fn kid(&self, tag: &str) -> Option<&Node> {
        self.kids.iter().find(|k| k.tag == tag)
    }
    pub fn need(&self, tag: &str) -> &Node {
        let n = self.kids.iter().filter(|k| k.tag == tag).count();
        sym::check(n == 1, "the saved document has each element exactly once");
        self.kid(tag).unwrap()
    }
    pub fn all<'a>(&'a self, tag: &'a str) -> impl Iterator<Item = &'a Node> + 'a {
        self.kids.iter().filter(move |k| k.tag == tag)
    }
    pub fn attr(&self, n: &str) -> Option<&[u8]> {
        self.attrs.iter().find(|a| a.0 == n).map(|a| &a.1[..])
    }
    /// Every node, in document order.
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        f(self);
        for k in &self.kids {
            k.walk(f);
        }
    }
}
struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn at(&self, s: &[u8]) -> bool {
        self.b.len() >= self.i + s.len() && &self.b[self.i..self.i + s.len()] == s
    }
    fn skip_to(&mut self, s: &[u8]) -> Option<()> {
        while self.i < self.b.len() {
            if self.at(s) {
                self.i += s.len();
                return Some(());
            }
            self.i += 1;
        }
        None
    }
    fn misc(&mut self) -> Option<()> {
        loop {
            self.ws();
            if self.at(b"<?") {
                self.skip_to(b"?>")?;
            } else if self.at(b"<!--") {
                self.skip_to(b"-->")?;
            } else {
                return Some(());
            }
        }
    }
    fn name(&mut self) -> Option<String> {
        let s = self.i;
        while self.i < self.b.len() && (self.b[self.i].is_ascii_alphanumeric() || self.b[self.i] == b'_') {
            self.i += 1;
        }
        String::from_utf8(self.b[s..self.i].to_vec()).ok()
    }
    fn entity(&mut self, o: &mut Vec<u8>) -> Option<()> {
        // at '&'
        let s = self.i + 1;
        self.skip_to(b";")?;
        let e = &self.b[s..self.i - 1];
        match e {
            b"lt" => o.push(b'<'),
            b"gt" => o.push(b'>'),
            b"amp" => o.push(b'&'),
            b"quot" => o.push(b'"'),
            b"apos" => o.push(b'\''),
            _ => {
                let t = std::str::from_utf8(e).ok()?;
                let n = if let Some(h) = t.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()?
                } else {
                    t.strip_prefix('#')?.parse().ok()?
                };
                let c = char::from_u32(n)?;
                let mut q = [0; 4];
                o.extend_from_slice(c.encode_utf8(&mut q).as_bytes());
            }
        }
        Some(())
    }
    fn element(&mut self) -> Option<Node> {
        if !self.at(b"<") {
            return None;
        }
        self.i += 1;
        let tag = self.name()?;
        let mut n = Node { tag, attrs: vec![], text: vec![], kids: vec![] };
        loop {
            self.ws();
            if self.at(b"/>") {
                self.i += 2;
                return Some(n);
            }
            if self.at(b">") {
                self.i += 1;
                break;
            }
            let a = self.name()?;
            if a.is_empty() {
                return None;
            }
            self.ws();
            if !self.at(b"=") {
                return None;
            }
            self.i += 1;
            self.ws();
            let q = *self.b.get(self.i)?;
            if q != b'"' && q != b'\'' {
                return None;
            }
            self.i += 1;
            let mut v = vec![];
            loop {
                let c = *self.b.get(self.i)?;
                if c == q {
                    self.i += 1;
                    break;
                } else if c == b'&' {
                    self.entity(&mut v)?;
                } else {
                    // white space in attribute values is normalised
                    v.push(if matches!(c, b'\t' | b'\n' | b'\r') { b' ' } else { c });
                    self.i += 1;
                }
            }
            n.attrs.push((a, v));
        }
        loop {
            let c = *self.b.get(self.i)?;
            if c == b'<' {
                if self.at(b"</") {
                    self.i += 2;
                    let e = self.name()?;
                    if e != n.tag {
                        return None;
                    }
                    self.ws();
                    if !self.at(b">") {
                        return None;
                    }
                    self.i += 1;
                    break;
                } else if self.at(b"<!--") {
                    self.skip_to(b"-->")?;
                } else if self.at(b"<![CDATA[") {
                    self.i += 9;
                    let s = self.i;
                    self.skip_to(b"]]>")?;
                    n.text.extend_from_slice(&self.b[s..self.i - 3]);
                } else {
                    n.kids.push(self.element()?);
                }
            } else if c == b'&' {
                let mut t = std::mem::take(&mut n.text);
                self.entity(&mut t)?;
                n.text = t;
            } else if c == b'\r' {
                // end-of-line normalisation
                n.text.push(b'\n');
                self.i += 1;
                if self.at(b"\n") {
                    self.i += 1;
                }
            } else {
                n.text.push(c);
                self.i += 1;
            }
        }
        if !n.kids.is_empty() {
            n.text.clear();
        }
        Some(n)
    }
}
pub fn parse(xml: &[u8]) -> Option<Node> {
    let mut p = P { b: xml, i: 0 };
    if p.at(&[0xef, 0xbb, 0xbf]) {
        p.i = 3;
    }
    p.misc()?;
    let n = p.element()?;
    p.misc()?;
    if p.i == xml.len() {
        Some(n)
    } else {
        None
    }
}
