//! Recovery codes: C11, C12.

use crate::crypto::open_handle;
use crate::engine::*;
use crate::gens;
use crate::hist::*;
use crate::memio::Handle;
use crate::refimpl::{self, CodeResult};
use crate::{ensure, viol};
use pfp::error::Error;
use pfp::recovery_codes;
use pfp::storage_types::StoredPassword;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use secrecy::{ExposeSecret, SecretVec};
use serde::{Deserialize, Serialize};

// C11

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CodeCase {
    password: String,
    primary: String,
    other: String,
    variant: u8,
    salt: Vec<u8>,
    mangle: Mangle,
    /// Use a storage with this salt instead of the free functions
    storage: bool,
}

/// Changes which don't alter the code
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Mangle {
    pub lower: u8,
    pub junk: Vec<(u16, String)>,
    pub separators: u8,
}

/// Characters which aren't part of the alphabet
fn junk() -> impl Strategy<Value = String> {
    prop_oneof![
        6 => "[ \t\r\n:;,._01Oio\"'\\\\/()-]{1,3}",
        1 => select(vec!["ä", "€", "😀", "\0", "\u{2028}", "İ", "ı", "ſ", "Ａ", "é"]).prop_map(|s: &str| s.to_owned()),
    ]
    // Only keep characters that cannot be taken for data
    .prop_map(|s| s.chars().filter(|c| !refimpl::ALPHABET.contains(&(c.to_ascii_uppercase() as u32 as u8)) || !c.is_ascii()).collect())
}

pub fn mangle() -> BoxedStrategy<Mangle> {
    (0u8..4, vec((any::<u16>(), junk()), 0..6), 0u8..5)
        .prop_map(|(lower, junk, separators)| Mangle { lower, junk, separators })
        .boxed()
}

pub fn apply_mangle(code: &str, m: &Mangle) -> String {
    let mut chars: Vec<String> = Vec::new();
    for (i, c) in code.chars().enumerate() {
        let sep = !c.is_ascii_alphanumeric();
        let c = match m.lower {
            1 => c.to_ascii_lowercase(),
            2 if i % 2 == 0 => c.to_ascii_lowercase(),
            3 if i % 7 < 3 => c.to_ascii_lowercase(),
            _ => c,
        };
        let s = match (sep, m.separators) {
            (true, 1) => String::new(),
            (true, 2) => " ".to_owned(),
            (true, 3) if c == '\n' => "\r\n".to_owned(),
            (true, 4) => "--\n".to_owned(),
            _ => c.to_string(),
        };
        chars.push(s);
    }
    for (i, j) in &m.junk {
        let i = *i as usize % (chars.len() + 1);
        chars.insert(i, j.clone());
    }
    chars.concat()
}

fn password() -> BoxedStrategy<String> {
    let sized = (0usize..140, select(vec!["x", "Aé", "€b", "0", "😀"])).prop_map(|(n, s)| {
        let mut r: String = s.repeat(n / s.len() + 1);
        while r.len() > n {
            r.pop();
        }
        r
    });
    // Filling the last line exactly, or missing that by one byte
    let aligned = (0usize..20, 0usize..3, select(vec!["y", "Z", "~"]))
        .prop_map(|(k, d, s): (usize, usize, &str)| s.repeat(k * 14 + 10 + d));
    prop_oneof![
        4 => gens::secret(),
        3 => sized,
        3 => aligned,
        1 => (200usize..5000, "[a-zA-Zä]").prop_map(|(n, s)| s.repeat(n / s.len())),
        1 => "[ -~]{12,28}",
        1 => "(a|\0){0,3}b",
    ]
    .prop_map(|s| s.trim_end_matches('\0').to_owned())
    .boxed()
}

fn code_case() -> BoxedStrategy<CodeCase> {
    (
        password(),
        gens::primary(),
        gens::primary(),
        0u8..10,
        vec(any::<u8>(), 16),
        mangle(),
        prop::bool::weighted(0.4),
    )
        .prop_map(|(password, primary, other, variant, salt, mangle, storage)| CodeCase { password, primary, other, variant, salt, mangle, storage })
        .boxed()
}

pub fn check_layout(code: &str, len: usize) -> R {
    let lines: Vec<&str> = code.split('\n').collect();
    let rows = refimpl::code_plain_size(len) / 14;
    ensure!(
        lines.len() == rows,
        "recovery code for a password of {} bytes has {} lines instead of {}",
        len,
        lines.len(),
        rows
    );
    for line in lines {
        ensure!(line.len() == 29, "recovery code line {:?} has wrong size", line);
        for (i, c) in line.bytes().enumerate() {
            let good = match i {
                14 => c == b':',
                4 | 9 | 19 | 24 => c == b'-',
                _ => refimpl::ALPHABET.contains(&c),
            };
            ensure!(good, "recovery code line {:?} has unexpected format", line);
        }
    }
    Ok(())
}

fn c11(_: &Ctx, case: &CodeCase, obs: &mut Obs) -> R {
    let pw = &case.password;
    obs.nontrivial();
    obs.class(match pw.len() {
        0 => "empty password",
        n if (45 + n) % 14 == 0 => "password filling the last line exactly",
        n if n > 255 * 14 - 45 => "more than 255 lines",
        n if n > 60 => "long password",
        _ => "short password",
    });
    if !pw.is_ascii() {
        obs.class("non-ASCII password");
    }
    let (primary, salt, codes) = if case.storage {
        obs.class("through storage");
        let t = template();
        let salt = base64::decode(&t["salt"]).map_err(infra("template"))?;
        let p = open_handle(&Handle::with(t.clone()), TEMPLATE_PRIMARY)?;
        let stored = StoredPassword::new("a.com", "me", "", secret(pw));
        let mut codes = Vec::new();
        for _ in 0..2 {
            match p.get_recovery_code(&stored) {
                Ok(c) => codes.push(c),
                Err(e) => viol!("get_recovery_code failed: {:?}", e),
            }
        }
        let code = apply_mangle(&codes[0], &case.mangle);
        match p.decode_recovery_code(&code) {
            Ok(v) if v.expose_secret() == pw => {}
            other => viol!("decode_recovery_code({:?}) gave {:?}, expected {:?}", code, other.map(|v| v.expose_secret().clone()), pw),
        }
        (TEMPLATE_PRIMARY.to_owned(), salt, codes)
    } else {
        let key = SecretVec::new(refimpl::derive_key(&case.primary, &case.salt));
        if case.variant == 0 {
            let k = pfp::passwords::get_encryption_key(&secret(&case.primary), &case.salt);
            ensure!(k.expose_secret() == key.expose_secret(), "get_encryption_key gives a different key");
        }
        let mut codes = Vec::new();
        for _ in 0..2 {
            match recovery_codes::generate(&secret(pw), &case.salt, &key) {
                Ok(c) => codes.push(c),
                Err(e) => viol!("generate failed: {:?}", e),
            }
        }
        (case.primary.clone(), case.salt.clone(), codes)
    };
    ensure!(codes[0] != codes[1], "two codes for the same password are identical");
    let key = refimpl::derive_key(&primary, &salt);
    for code in &codes {
        check_layout(code, pw.len())?;
        let data = refimpl::code_validate(code)
            .map_err(|e| Fail::Violation(format!("generated code is not valid: {:?}", e)))?;
        ensure!(data[1..17] == salt[..], "code contains another salt");
        match refimpl::code_decode(code, |_| key.clone()) {
            CodeResult::Ok(v) if v == *pw => {}
            other => viol!("generated code contains {:?} instead of {:?}", other, pw),
        }
    }
    let a = refimpl::code_validate(&codes[0]).unwrap_or_default();
    let b = refimpl::code_validate(&codes[1]).unwrap_or_default();
    ensure!(a[17..29] != b[17..29], "two codes use the same nonce");
    let code = apply_mangle(&codes[1], &case.mangle);
    match recovery_codes::decode(&code, &secret(&primary)) {
        Ok(v) if v.expose_secret() == pw => {}
        other => viol!("decode({:?}) gave {:?}, expected {:?}", code, other.map(|v| v.expose_secret().clone()), pw),
    }
    let wrong = near_miss(&primary, case.variant, &case.other);
    if wrong.trim_end_matches('\0') != primary.trim_end_matches('\0') {
        match recovery_codes::decode(&codes[0], &secret(&wrong)) {
            Err(Error::DecryptionFailure) => {}
            other => viol!("decoding with wrong primary password {:?} instead of {:?} gave {:?}", wrong, primary, other.map(|v| v.expose_secret().clone())),
        }
    }
    Ok(())
}

// C12

const PRIMARY: &str = "primary";
const SALT: [u8; 16] = [7, 1, 200, 3, 90, 0, 255, 128, 9, 10, 11, 12, 13, 14, 15, 16];

fn fixed_key() -> &'static [u8] {
    static KEY: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    KEY.get_or_init(|| refimpl::derive_key(PRIMARY, &SALT))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Base {
    /// Valid code for a password of this size
    Valid(usize),
    /// Correct checksums for arbitrary data, version given separately
    Forged { version: u8, data: Vec<u8> },
    /// Correctly encrypted bytes which aren't UTF-8 or contain NULs
    Encrypted(Vec<u8>),
    /// Anything
    Text(String),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Damage {
    Subst(u16, u8),
    SwapChars(u16, u16),
    SwapRows(u8, u8),
    DropRow(u8),
    DupRow(u8),
    /// Insert the row of another valid code
    ForeignRow(u8, u8),
    Truncate(u16),
    TruncateRows(u8),
    DropChar(u16),
    InsertChar(u16, u8),
    Append(String),
    AppendCode,
    /// Give a row the checksum of another position or of a last row
    Resum(u8, u8, bool),
    Lower,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DamageCase {
    base: Base,
    damage: Vec<Damage>,
    mangle: Mangle,
}

fn base() -> BoxedStrategy<Base> {
    prop_oneof![
        8 => (0usize..90).prop_map(Base::Valid),
        1 => (3500usize..5000).prop_map(Base::Valid),
        3 => (prop_oneof![2 => Just(1u8), 3 => proptest::sample::select(vec![0u8, 2, 3, 16, 127, 128, 129, 254, 255]), 1 => any::<u8>()], vec(any::<u8>(), 0..120)).prop_map(|(version, data)| Base::Forged { version, data }),
        1 => vec(prop_oneof![any::<u8>(), Just(0u8), 0xc0u8..=0xff], 0..40).prop_map(Base::Encrypted),
        1 => gens::text(80).prop_map(Base::Text),
        1 => "[A-Z2-9\n:-]{0,120}".prop_map(Base::Text),
    ]
    .boxed()
}

fn damage() -> BoxedStrategy<Damage> {
    prop_oneof![
        4 => (any::<u16>(), any::<u8>()).prop_map(|(i, c)| Damage::Subst(i, c)),
        1 => (any::<u16>(), 1u16..40).prop_map(|(i, c)| Damage::SwapChars(i, c)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(i, c)| Damage::SwapRows(i, c)),
        2 => any::<u8>().prop_map(Damage::DropRow),
        2 => any::<u8>().prop_map(Damage::DupRow),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(i, c)| Damage::ForeignRow(i, c)),
        2 => any::<u16>().prop_map(Damage::Truncate),
        1 => any::<u8>().prop_map(Damage::TruncateRows),
        1 => any::<u16>().prop_map(Damage::DropChar),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(i, c)| Damage::InsertChar(i, c)),
        2 => "[A-Z2-9 ]{1,50}".prop_map(Damage::Append),
        1 => Just(Damage::AppendCode),
        2 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(i, p, l)| Damage::Resum(i, p, l)),
        1 => Just(Damage::Lower),
    ]
    .boxed()
}

fn damage_case() -> BoxedStrategy<DamageCase> {
    (base(), vec(damage(), 0..3), mangle())
        .prop_map(|(base, damage, mangle)| DamageCase { base, damage, mangle })
        .boxed()
}

fn build(b: &Base) -> String {
    match b {
        Base::Valid(n) => {
            let pw: Vec<u8> = (0..*n).map(|i| b'!' + (i * 7 % 90) as u8).collect();
            refimpl::recovery_code(&pw, &SALT, fixed_key(), &[*n as u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11])
        }
        Base::Forged { version, data } => {
            let mut d = vec![*version];
            d.extend(data);
            let n = (d.len() + 13) / 14 * 14;
            d.resize(n, 0x55);
            refimpl::code_from_bytes(&d)
        }
        Base::Encrypted(data) => refimpl::recovery_code(data, &SALT, fixed_key(), &[9; 12]),
        Base::Text(s) => s.clone(),
    }
}

fn damaged(mut code: String, d: &Damage) -> String {
    let alphabet = |c: u8| refimpl::ALPHABET[c as usize % 32];
    let mut chars = refimpl::code_chars(&code);
    let rows = |chars: &[u8]| -> Vec<Vec<u8>> { chars.chunks(24).map(|r| r.to_vec()).collect() };
    let n = chars.len().max(1);
    match d {
        Damage::Subst(i, c) => {
            if let Some(x) = chars.get_mut(*i as usize % n) {
                *x = alphabet(*c);
            }
        }
        Damage::SwapChars(i, off) => {
            let (a, b) = (*i as usize % n, (*i as usize + *off as usize) % n);
            if chars.len() > 1 {
                chars.swap(a, b);
            }
        }
        Damage::SwapRows(i, j) => {
            let mut r = rows(&chars);
            if !r.is_empty() {
                let (a, b) = (*i as usize % r.len(), *j as usize % r.len());
                r.swap(a, b);
            }
            chars = r.concat();
        }
        Damage::DropRow(i) => {
            let mut r = rows(&chars);
            if !r.is_empty() {
                let i = *i as usize % r.len();
                r.remove(i);
            }
            chars = r.concat();
        }
        Damage::DupRow(i) => {
            let mut r = rows(&chars);
            if !r.is_empty() {
                let i = *i as usize % r.len();
                let row = r[i].clone();
                r.insert(i, row);
            }
            chars = r.concat();
        }
        Damage::ForeignRow(i, j) => {
            let mut r = rows(&chars);
            let other = rows(&refimpl::code_chars(&build(&Base::Valid(60))));
            if !r.is_empty() {
                let i = *i as usize % r.len();
                r[i] = other[*j as usize % other.len()].clone();
            }
            chars = r.concat();
        }
        Damage::Truncate(i) => chars.truncate(*i as usize % n),
        Damage::TruncateRows(i) => {
            let count = (chars.len() / 24).max(1);
            chars.truncate(*i as usize % count * 24);
        }
        Damage::DropChar(i) => {
            if !chars.is_empty() {
                chars.remove(*i as usize % n);
            }
        }
        Damage::InsertChar(i, c) => {
            let i = *i as usize % (chars.len() + 1);
            chars.insert(i, alphabet(*c));
        }
        Damage::Append(s) => {
            code.push('\n');
            code += s;
            return code;
        }
        Damage::AppendCode => {
            chars.extend(refimpl::code_chars(&build(&Base::Valid(3))));
        }
        Damage::Resum(i, pos, last) => {
            let mut r = rows(&chars);
            if r.len() > 0 {
                let i = *i as usize % r.len();
                if r[i].len() == 24 {
                    let pos = if *pos % 2 == 0 { i as u8 } else { (*pos >> 1) % 12 };
                    let mut bytes = refimpl::b32_decode(&r[i]);
                    let start = if *last { 255 - pos } else { pos };
                    bytes[14] = refimpl::pearson(&bytes[..14], start);
                    r[i] = refimpl::b32_encode(&bytes).into_bytes();
                }
            }
            chars = r.concat();
        }
        Damage::Lower => {
            return code.to_ascii_lowercase();
        }
    }
    String::from_utf8(chars).unwrap_or_default()
}

fn same(actual: &Result<secrecy::SecretString, Error>, expected: &CodeResult) -> bool {
    match (actual, expected) {
        (Ok(v), CodeResult::Ok(e)) => v.expose_secret() == e,
        (Err(Error::RecoveryCodeIncomplete), CodeResult::Incomplete) => true,
        (Err(Error::RecoveryCodeChecksumMismatch { line }), CodeResult::Checksum(l)) => line == l,
        (Err(Error::RecoveryCodeExtraData { line }), CodeResult::Extra(l)) => line == l,
        (Err(Error::RecoveryCodeWrongVersion), CodeResult::Version) => true,
        (Err(Error::RecoveryCodeInsufficientData), CodeResult::Insufficient) => true,
        (Err(Error::DecryptionFailure), CodeResult::Decryption) => true,
        (Err(Error::InvalidUtf8 { .. } | Error::DecryptionFailure), CodeResult::Utf8) => true,
        _ => false,
    }
}

fn c12(_: &Ctx, case: &DamageCase, obs: &mut Obs) -> R {
    let mut code = build(&case.base);
    for d in &case.damage {
        code = damaged(code, d);
    }
    if !matches!(case.base, Base::Text(_)) {
        code = apply_mangle(&code, &case.mangle);
    }
    check_code(&code, obs)
}

fn check_code(code: &str, obs: &mut Obs) -> R {
    let expected = refimpl::code_decode(code, |salt| {
        if salt == SALT {
            fixed_key().to_vec()
        } else {
            refimpl::derive_key(PRIMARY, salt)
        }
    });
    obs.class(match &expected {
        CodeResult::Ok(_) => "valid",
        CodeResult::Incomplete => "incomplete",
        CodeResult::Checksum(0) => "checksum mismatch in first line",
        CodeResult::Checksum(_) => "checksum mismatch in later line",
        CodeResult::Extra(_) => "extra data",
        CodeResult::Version => "wrong version",
        CodeResult::Insufficient => "insufficient data",
        CodeResult::Decryption => "decryption failure",
        CodeResult::Utf8 => "not UTF-8",
    });
    if !matches!(expected, CodeResult::Ok(_)) {
        obs.nontrivial();
    }
    let actual = recovery_codes::decode(code, &secret(PRIMARY));
    ensure!(
        same(&actual, &expected),
        "decode({:?}) returned {:?}, expected {:?}",
        code,
        actual.map(|v| v.expose_secret().clone()),
        expected
    );
    // Bringing the code into canonical form changes nothing
    let plain = recovery_codes::format_code(code.as_bytes(), false);
    ensure!(
        plain.as_bytes() == &refimpl::code_chars(code)[..],
        "format_code({:?}, false) gave {:?}",
        code,
        plain
    );
    let pretty = recovery_codes::format_code(code.as_bytes(), true);
    ensure!(
        refimpl::code_chars(&pretty) == plain.as_bytes(),
        "format_code({:?}, true) gave {:?}",
        code,
        pretty
    );
    let mut expected_pretty = String::new();
    for (i, c) in plain.bytes().enumerate() {
        if i > 0 && i % 24 == 0 {
            expected_pretty.push('\n');
        } else if i > 0 && i % 12 == 0 {
            expected_pretty.push(':');
        } else if i > 0 && i % 4 == 0 {
            expected_pretty.push('-');
        }
        expected_pretty.push(c as char);
    }
    ensure!(pretty == expected_pretty, "format_code({:?}, true) gave {:?}", code, pretty);
    Ok(())
}

/// All single-character substitutions, deletions and truncations of one code, one position each.
fn substitutions(ctx: &Ctx) -> R<Vec<(usize, u16)>> {
    let sizes: &[usize] = if ctx.tier == Tier::Quick { &[11, 20] } else { &[0, 11, 12, 20, 25, 40] };
    let mut result = Vec::new();
    for size in sizes {
        let n = refimpl::code_chars(&build(&Base::Valid(*size))).len();
        for i in 0..n {
            result.push((*size, i as u16));
        }
    }
    Ok(result)
}

fn c12_substitutions(_: &Ctx, case: &(usize, u16), obs: &mut Obs) -> R {
    let (size, i) = *case;
    let code = build(&Base::Valid(size));
    for c in 0..32 {
        check_code(&damaged(code.clone(), &Damage::Subst(i, c)), obs)?;
        obs.extra += 1;
    }
    check_code(&damaged(code.clone(), &Damage::DropChar(i)), obs)?;
    check_code(&damaged(code.clone(), &Damage::Truncate(i)), obs)?;
    check_code(&damaged(code.clone(), &Damage::InsertChar(i, i as u8)), obs)?;
    for off in 1..5 {
        check_code(&damaged(code.clone(), &Damage::SwapChars(i, off)), obs)?;
    }
    Ok(())
}

/// All row arrangements: every sequence of up to 4 rows out of a code's rows.
fn arrangements(_: &Ctx) -> R<Vec<Vec<u8>>> {
    let mut result = vec![vec![]];
    let mut level: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..5 {
        let mut next = Vec::new();
        for s in &level {
            for r in 0..5 {
                let mut t = s.clone();
                t.push(r);
                next.push(t);
            }
        }
        result.extend(next.clone());
        level = next;
    }
    Ok(result)
}

fn c12_arrangement(_: &Ctx, rows: &Vec<u8>, obs: &mut Obs) -> R {
    let chars = refimpl::code_chars(&build(&Base::Valid(20)));
    let code: Vec<u8> = rows.iter().flat_map(|r| chars[*r as usize * 24..][..24].to_vec()).collect();
    check_code(&String::from_utf8(code).unwrap_or_default(), obs)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            level: "exploration",
            rule: "Random passwords (0 to 5000 bytes), salts and primary passwords; codes made by the library are checked for layout, decoded by an independent implementation, and decoded by the library after changing case, separators and adding foreign characters, also with near-miss primary passwords. Non-trivial: always.",
            assumptions: &["passwords don't end in NUL"],
            subs: vec![Box::new(Gen { name: "round-trip", quick: 360, thorough: 10000, strat: code_case, test: c11, shrink: 120 })],
        },
        Prop {
            id: "C12",
            level: "exploration",
            rule: "Valid, forged and arbitrary codes with up to two damages (characters, lines, lengths, checksums of other positions), all single-character changes of some codes and all arrangements of up to 5 lines of a code; the result has to match an independent decoder exactly. Non-trivial: the code is not valid.",
            assumptions: &["bytes that aren't UTF-8 may be reported as such or as decryption failure"],
            subs: vec![
                Box::new(Gen { name: "damage", quick: 4000, thorough: 100000, strat: damage_case, test: c12, shrink: 1000 }),
                Box::new(Enum { name: "single-character", cases: substitutions, test: c12_substitutions }),
                Box::new(Enum { name: "line-arrangements", cases: arrangements, test: c12_arrangement }),
            ],
        },
    ]
}
