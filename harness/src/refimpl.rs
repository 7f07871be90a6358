//! Independent implementation of the PfP data formats, the oracle for most checks. Written from
//! the format description, shares no code with the crate under test.

use crate::model::{Entry, Model, Val};
use aes_gcm::aead::{Aead, NewAead};
use hmac::Mac;
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};

pub type Raw = HashMap<String, String>;

fn scrypt_raw(password: &[u8], salt: &[u8], len: usize) -> Vec<u8> {
    type Cache = HashMap<(Vec<u8>, Vec<u8>, usize), Vec<u8>>;
    static CACHE: std::sync::OnceLock<std::sync::Mutex<Cache>> = std::sync::OnceLock::new();
    let cache = CACHE.get_or_init(Default::default);
    let id = (password.to_vec(), salt.to_vec(), len);
    if let Some(known) = cache.lock().unwrap().get(&id) {
        return known.clone();
    }
    let params = scrypt::Params::new(15, 8, 1).unwrap();
    let mut out = vec![0u8; len];
    scrypt::scrypt(password, salt, &params, &mut out).unwrap();
    let mut cache = cache.lock().unwrap();
    if cache.len() > 20000 {
        cache.clear();
    }
    cache.insert(id, out.clone());
    out
}

pub fn derive_key(primary: &str, salt: &[u8]) -> Vec<u8> {
    // Every salt byte is taken as a Unicode code point
    let mut encoded = Vec::new();
    for &b in salt {
        if b < 0x80 {
            encoded.push(b);
        } else {
            encoded.push(0xC0 | b >> 6);
            encoded.push(0x80 | b & 0x3F);
        }
    }
    scrypt_raw(primary.as_bytes(), &encoded, 32)
}

pub const LOWER: &str = "abcdefghjkmnpqrstuvwxyz";
pub const UPPER: &str = "ABCDEFGHJKMNPQRSTUVWXYZ";
pub const DIGIT: &str = "23456789";
pub const SYMBOL: &str = "!#$%&()*+,-./:;<=>?@[]^_{|}~";
pub const TYPES: [&str; 4] = [LOWER, UPPER, DIGIT, SYMBOL];

pub fn generate(
    primary: &str,
    site: &str,
    name: &str,
    revision: &str,
    length: usize,
    set: u8,
) -> String {
    let mut salt = format!("{}\0{}", site, name);
    if !revision.is_empty() && revision != "1" {
        salt += "\0";
        salt += revision;
    }
    let bytes = scrypt_raw(primary.as_bytes(), salt.as_bytes(), length);
    let mut missing = set;
    let mut out = String::new();
    for (i, b) in bytes.iter().enumerate() {
        let left = length - i;
        let use_set = if missing.count_ones() as usize >= left {
            missing
        } else {
            set
        };
        let mut alphabet = String::new();
        for (t, chars) in TYPES.iter().enumerate() {
            if use_set & 1 << t != 0 {
                alphabet += chars;
            }
        }
        let c = alphabet.as_bytes()[*b as usize % alphabet.len()] as char;
        for (t, chars) in TYPES.iter().enumerate() {
            if chars.contains(c) {
                missing &= !(1 << t);
            }
        }
        out.push(c);
    }
    out
}

pub fn hmac_b64(secret: &[u8], data: &str) -> String {
    let mut mac = hmac::Hmac::<sha2::Sha256>::new_from_slice(secret).unwrap();
    mac.update(data.as_bytes());
    base64::encode(mac.finalize().into_bytes())
}

pub fn site_key(secret: &[u8], site: &str) -> String {
    format!("site:{}", hmac_b64(secret, site))
}

pub fn entry_key(secret: &[u8], site: &str, name: &str, revision: &str) -> String {
    format!(
        "{}:{}",
        site_key(secret, site),
        hmac_b64(secret, &format!("{}\0{}\0{}", site, name, revision))
    )
}

pub fn aes_encrypt(data: &[u8], key: &[u8], nonce: &[u8]) -> Vec<u8> {
    let cipher = aes_gcm::Aes256Gcm::new(aes_gcm::Key::from_slice(key));
    cipher
        .encrypt(aes_gcm::Nonce::from_slice(nonce), data)
        .unwrap()
}

pub fn aes_decrypt(data: &[u8], key: &[u8], nonce: &[u8]) -> Option<Vec<u8>> {
    if nonce.len() != 12 {
        return None;
    }
    let cipher = aes_gcm::Aes256Gcm::new(aes_gcm::Key::from_slice(key));
    cipher
        .decrypt(aes_gcm::Nonce::from_slice(nonce), data)
        .ok()
}

pub fn encrypt(data: &[u8], key: &[u8], nonce: &[u8]) -> String {
    format!(
        "{}_{}",
        base64::encode(nonce),
        base64::encode(aes_encrypt(data, key, nonce))
    )
}

pub fn split_value(value: &str) -> Result<(Vec<u8>, Vec<u8>), String> {
    let (n, c) = value
        .split_once('_')
        .ok_or_else(|| format!("value is not nonce_ciphertext: {:?}", value))?;
    let nonce = base64::decode(n).map_err(|e| format!("nonce Base64: {}", e))?;
    let ct = base64::decode(c).map_err(|e| format!("ciphertext Base64: {}", e))?;
    if nonce.len() != 12 {
        return Err(format!("nonce has {} bytes instead of 12", nonce.len()));
    }
    Ok((nonce, ct))
}

pub fn decrypt(value: &str, key: &[u8]) -> Result<Vec<u8>, String> {
    let (nonce, ct) = split_value(value)?;
    aes_decrypt(&ct, key, &nonce).ok_or_else(|| "value does not decrypt".to_owned())
}

/// Decoded storage contents.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Decoded {
    pub sites: BTreeMap<String, Option<String>>,
    pub entries: BTreeMap<(String, String, String), Entry>,
}

#[derive(Debug, Clone)]
pub struct Keys {
    pub salt: Vec<u8>,
    pub key: Vec<u8>,
    pub secret: Vec<u8>,
}

pub fn keys(raw: &Raw, primary: &str) -> Result<Keys, String> {
    let salt = base64::decode(raw.get("salt").ok_or("no salt")?).map_err(|e| e.to_string())?;
    let key = derive_key(primary, &salt);
    keys_with(raw, salt, key)
}

pub fn keys_with(raw: &Raw, salt: Vec<u8>, key: Vec<u8>) -> Result<Keys, String> {
    let json = decrypt(raw.get("hmac-secret").ok_or("no hmac-secret")?, &key)
        .map_err(|e| format!("hmac-secret: {}", e))?;
    let text: String = serde_json::from_slice(&json).map_err(|e| format!("hmac-secret: {}", e))?;
    let secret = base64::decode(text).map_err(|e| format!("hmac-secret: {}", e))?;
    Ok(Keys { salt, key, secret })
}

fn str_field(o: &mut serde_json::Map<String, Value>, name: &str) -> Result<String, String> {
    match o.remove(name) {
        Some(Value::String(s)) => Ok(s),
        other => Err(format!("field {:?} is {:?}", name, other)),
    }
}
fn bool_field(o: &mut serde_json::Map<String, Value>, name: &str) -> Result<bool, String> {
    match o.remove(name) {
        Some(Value::Bool(s)) => Ok(s),
        other => Err(format!("field {:?} is {:?}", name, other)),
    }
}

/// Strictly decodes all data, any deviation from the format is an error.
pub fn decode(raw: &Raw, keys: &Keys) -> Result<Decoded, String> {
    let mut result = Decoded::default();
    for (k, v) in raw {
        if k == "salt" || k == "hmac-secret" {
            continue;
        }
        let json = decrypt(v, &keys.key).map_err(|e| format!("{}: {}", k, e))?;
        let mut o: serde_json::Map<String, Value> =
            serde_json::from_slice(&json).map_err(|e| format!("{}: {}", k, e))?;
        if o.contains_key("type") {
            let kind = str_field(&mut o, "type")?;
            let site = str_field(&mut o, "site")?;
            let name = str_field(&mut o, "name")?;
            let revision = str_field(&mut o, "revision")?;
            if revision == "1" {
                return Err("revision stored as \"1\"".to_owned());
            }
            let notes = match o.remove("notes") {
                None => String::new(),
                Some(Value::String(s)) => s,
                Some(other) => return Err(format!("notes are {:?}", other)),
            };
            let val = match kind.as_str() {
                "stored" => Val::Stored(str_field(&mut o, "password")?),
                "generated2" => {
                    let len = o
                        .remove("length")
                        .and_then(|l| l.as_u64())
                        .ok_or("length is not a number")?;
                    let mut set = 0;
                    for (i, t) in ["lower", "upper", "number", "symbol"].iter().enumerate() {
                        if bool_field(&mut o, t)? {
                            set |= 1 << i;
                        }
                    }
                    Val::Gen {
                        len: len as usize,
                        set,
                    }
                }
                other => return Err(format!("unknown type {:?}", other)),
            };
            if !o.is_empty() {
                return Err(format!("unexpected fields {:?}", o));
            }
            if *k != entry_key(&keys.secret, &site, &name, &revision) {
                return Err(format!("entry stored under wrong key {}", k));
            }
            result
                .entries
                .insert((site, name, revision), Entry { val, notes });
        } else {
            let site = str_field(&mut o, "site")?;
            let alias = if o.contains_key("alias") {
                match o.remove("alias") {
                    Some(Value::Null) => None,
                    Some(Value::String(s)) => Some(s),
                    other => return Err(format!("alias is {:?}", other)),
                }
            } else {
                None
            };
            if !o.is_empty() {
                return Err(format!("unexpected fields {:?}", o));
            }
            if *k != site_key(&keys.secret, &site) {
                return Err(format!("site stored under wrong key {}", k));
            }
            result.sites.insert(site, alias);
        }
    }
    Ok(result)
}

/// Parses a storage file, strictly.
pub fn parse_file(bytes: &[u8]) -> Result<Raw, String> {
    let v: Value = serde_json::from_slice(bytes).map_err(|e| format!("not JSON: {}", e))?;
    let o = v.as_object().ok_or("not an object")?;
    if o.len() != 3 {
        return Err(format!("members {:?}", o.keys().collect::<Vec<_>>()));
    }
    if o.get("application") != Some(&Value::String("pfp".to_owned())) {
        return Err("wrong application".to_owned());
    }
    if o.get("format").and_then(|f| f.as_u64()) != Some(3) {
        return Err("wrong format".to_owned());
    }
    let data = o.get("data").and_then(|d| d.as_object()).ok_or("no data")?;
    let mut raw = Raw::new();
    for (k, v) in data {
        raw.insert(
            k.clone(),
            v.as_str().ok_or("value is not a string")?.to_owned(),
        );
    }
    Ok(raw)
}

pub fn file_for(raw: &Raw) -> Vec<u8> {
    let sorted: BTreeMap<_, _> = raw.iter().collect();
    serde_json::to_vec(&serde_json::json!({"application": "pfp", "format": 3, "data": sorted}))
        .unwrap()
}

/// Compares decoded data to the model. Leftover records of sites without passwords are fine.
pub fn compare(decoded: &Decoded, model: &Model) -> Result<(), String> {
    if decoded.entries != model.entries {
        for (k, v) in &model.entries {
            match decoded.entries.get(k) {
                None => return Err(format!("entry {:?} is missing", k)),
                Some(d) if d != v => {
                    return Err(format!("entry {:?} is {:?}, expected {:?}", k, d, v))
                }
                _ => {}
            }
        }
        for k in decoded.entries.keys() {
            if !model.entries.contains_key(k) {
                return Err(format!("unexpected entry {:?}", k));
            }
        }
    }
    compare_sites(&decoded.sites, model)
}

pub fn compare_sites(sites: &BTreeMap<String, Option<String>>, model: &Model) -> Result<(), String> {
    for (site, alias) in &model.aliases {
        if sites.get(site) != Some(&Some(alias.clone())) {
            return Err(format!(
                "{:?} should be an alias for {:?}, site record is {:?}",
                site,
                alias,
                sites.get(site)
            ));
        }
    }
    for (site, _, _) in model.entries.keys() {
        if sites.get(site) != Some(&None) {
            return Err(format!(
                "site {:?} has passwords but its site record is {:?}",
                site,
                sites.get(site)
            ));
        }
    }
    for (site, alias) in sites {
        if alias.is_some() && !model.aliases.contains_key(site) {
            return Err(format!("unexpected alias {:?} for {:?}", site, alias));
        }
        if alias.is_none() && !model.ever.contains(site) {
            return Err(format!("unexpected site record {:?}", site));
        }
    }
    Ok(())
}

/// A parameterised writer imitating other implementations of the format.
pub struct Writer {
    pub primary: String,
    pub salt: Vec<u8>,
    pub secret: Vec<u8>,
    pub key: Vec<u8>,
    pub nonce: u64,
}

pub const BASE64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

impl Writer {
    pub fn new(primary: &str, salt: &[u8], secret: &[u8]) -> Self {
        Self {
            primary: primary.to_owned(),
            salt: salt.to_vec(),
            secret: secret.to_vec(),
            key: derive_key(primary, salt),
            nonce: 0x1234,
        }
    }
    fn nonce(&mut self) -> [u8; 12] {
        let mut n = [7u8; 12];
        self.nonce = self
            .nonce
            .wrapping_mul(6364136223846793005)
            .wrapping_add(1442695040888963407);
        n[..8].copy_from_slice(&self.nonce.to_le_bytes());
        n
    }
    pub fn value(&mut self, json: &[u8]) -> String {
        let nonce = self.nonce();
        encrypt(json, &self.key, &nonce)
    }
    pub fn base(&mut self) -> Raw {
        let mut raw = Raw::new();
        raw.insert("salt".to_owned(), base64::encode(&self.salt));
        let secret = serde_json::to_vec(&base64::encode(&self.secret)).unwrap();
        let value = self.value(&secret);
        raw.insert("hmac-secret".to_owned(), value);
        raw
    }
    pub fn put_site(&mut self, raw: &mut Raw, site: &str, json: &[u8]) {
        let v = self.value(json);
        raw.insert(site_key(&self.secret, site), v);
    }
    pub fn put_entry(&mut self, raw: &mut Raw, id: &(String, String, String), json: &[u8]) {
        let v = self.value(json);
        raw.insert(entry_key(&self.secret, &id.0, &id.1, &id.2), v);
    }
    pub fn entry_json(id: &(String, String, String), e: &Entry) -> Vec<(String, Value)> {
        let s = |v: &str| Value::String(v.to_owned());
        let mut f: Vec<(String, Value)> = vec![
            ("site".into(), s(&id.0)),
            ("name".into(), s(&id.1)),
            ("revision".into(), s(&id.2)),
        ];
        match &e.val {
            Val::Stored(p) => {
                f.insert(0, ("type".into(), s("stored")));
                f.push(("password".into(), s(p)));
            }
            Val::Gen { len, set } => {
                f.insert(0, ("type".into(), s("generated2")));
                f.push(("length".into(), Value::from(*len)));
                for (i, t) in ["lower", "upper", "number", "symbol"].iter().enumerate() {
                    f.push((t.to_string(), Value::Bool(set & 1 << i != 0)));
                }
            }
        }
        if !e.notes.is_empty() {
            f.push(("notes".into(), s(&e.notes)));
        }
        f
    }
    /// Complete data for a model.
    pub fn write(&mut self, model: &Model) -> Raw {
        let mut raw = self.base();
        let mut sites: BTreeMap<String, Option<String>> = BTreeMap::new();
        for (site, _, _) in model.entries.keys() {
            sites.insert(site.clone(), None);
        }
        for (site, alias) in &model.aliases {
            sites.insert(site.clone(), Some(alias.clone()));
        }
        for (site, alias) in sites {
            let json = match alias {
                Some(a) => serde_json::json!({"site": site, "alias": a}),
                None => serde_json::json!({"site": site}),
            };
            self.put_site(&mut raw, &site, &serde_json::to_vec(&json).unwrap());
        }
        for (id, e) in &model.entries {
            let map: serde_json::Map<String, Value> = Self::entry_json(id, e).into_iter().collect();
            self.put_entry(&mut raw, id, &serde_json::to_vec(&map).unwrap());
        }
        raw
    }
}

// Recovery codes

pub const ALPHABET: &[u8; 32] = b"ABCDEFGHJKLMNPQRSTUVWXYZ23456789";

pub fn pearson(data: &[u8], start: u8) -> u8 {
    let t = |x: u8| -> u8 { ((x as u32 + 379) * 467 % 256) as u8 };
    data.iter().fold(t(start), |h, b| t(h ^ b))
}

pub fn b32_encode(data: &[u8]) -> String {
    assert!(data.len() % 5 == 0);
    let mut out = String::new();
    let mut acc: u32 = 0;
    let mut bits = 0;
    for b in data {
        acc = acc << 8 | *b as u32;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            out.push(ALPHABET[(acc >> bits & 31) as usize] as char);
        }
        acc &= (1 << bits) - 1;
    }
    out
}

pub fn b32_decode(text: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut acc: u32 = 0;
    let mut bits = 0;
    for c in text {
        let v = ALPHABET.iter().position(|a| a == c).unwrap() as u32;
        acc = acc << 5 | v;
        bits += 5;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    out
}

/// Plain characters of a code, upper-cased.
pub fn code_chars(code: &str) -> Vec<u8> {
    code.bytes()
        .map(|b| b.to_ascii_uppercase())
        .filter(|b| ALPHABET.contains(b))
        .collect()
}

/// Encodes arbitrary blocks (multiples of 14 bytes) with checksums.
pub fn code_from_bytes(data: &[u8]) -> String {
    assert!(data.len() % 14 == 0);
    let rows = data.len() / 14;
    let mut out = Vec::new();
    for (i, row) in data.chunks(14).enumerate() {
        out.extend_from_slice(row);
        let start = if i == rows - 1 {
            255u8.wrapping_sub(i as u8)
        } else {
            i as u8
        };
        out.push(pearson(row, start));
    }
    b32_encode(&out)
}

pub fn code_plain_size(len: usize) -> usize {
    (1 + 16 + 12 + 16 + len + 13) / 14 * 14
}

pub fn recovery_code(password: &[u8], salt: &[u8; 16], key: &[u8], nonce: &[u8; 12]) -> String {
    let total = code_plain_size(password.len());
    let mut plain = password.to_vec();
    plain.resize(total - 45, 0);
    let mut data = vec![1u8];
    data.extend_from_slice(salt);
    data.extend_from_slice(nonce);
    data.extend_from_slice(&aes_encrypt(&plain, key, nonce));
    code_from_bytes(&data)
}

#[derive(Debug, PartialEq, Clone)]
pub enum CodeResult {
    Ok(String),
    Incomplete,
    Checksum(usize),
    Extra(usize),
    Version,
    Insufficient,
    Decryption,
    Utf8,
}

/// Validates the structure; returns data rows without checksums.
pub fn code_validate(code: &str) -> Result<Vec<u8>, CodeResult> {
    let chars = code_chars(code);
    let rows: Vec<Vec<u8>> = chars.chunks(24).filter(|r| r.len() == 24).map(b32_decode).collect();
    let mut data = Vec::new();
    for (i, row) in rows.iter().enumerate() {
        data.extend_from_slice(&row[..14]);
        if row[14] == pearson(&row[..14], 255u8.wrapping_sub(i as u8)) {
            if chars.len() > (i + 1) * 24 {
                return Err(CodeResult::Extra(i + 1));
            }
            return Ok(data);
        }
        if row[14] != pearson(&row[..14], i as u8) {
            return Err(CodeResult::Checksum(i));
        }
    }
    Err(CodeResult::Incomplete)
}

pub fn code_decode(code: &str, derive: impl Fn(&[u8]) -> Vec<u8>) -> CodeResult {
    let data = match code_validate(code) {
        Ok(d) => d,
        Err(e) => return e,
    };
    if data[0] != 1 {
        return CodeResult::Version;
    }
    if data.len() < 45 {
        return CodeResult::Insufficient;
    }
    let key = derive(&data[1..17]);
    match aes_decrypt(&data[29..], &key, &data[17..29]) {
        None => CodeResult::Decryption,
        Some(mut plain) => {
            while plain.last() == Some(&0) {
                plain.pop();
            }
            match String::from_utf8(plain) {
                Ok(s) => CodeResult::Ok(s),
                Err(_) => CodeResult::Utf8,
            }
        }
    }
}

/// Whole-string wildcard match.
pub fn wild(pattern: &str, text: &str) -> bool {
    let p: Vec<char> = pattern.chars().collect();
    let t: Vec<char> = text.chars().collect();
    let mut row = vec![false; t.len() + 1];
    row[0] = true;
    for c in p {
        let mut next = vec![false; t.len() + 1];
        if c == '*' {
            let mut any = false;
            for j in 0..=t.len() {
                any |= row[j];
                next[j] = any;
            }
        } else {
            for j in 0..t.len() {
                next[j + 1] = row[j] && (c == '?' || c == t[j]);
            }
        }
        row = next;
    }
    row[t.len()]
}

pub fn sha256(data: &[u8]) -> [u8; 32] {
    use sha2::Digest;
    sha2::Sha256::digest(data).into()
}

pub fn sha512(data: &[u8]) -> [u8; 64] {
    use sha2::Digest;
    sha2::Sha512::digest(data).into()
}
