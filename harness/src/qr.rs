//! An independent QR code decoder and the check of show -q: C19.

use crate::cli::*;
use crate::cmds::*;
use crate::engine::*;
use crate::model::*;
use crate::session::{Shell, StepC};
use crate::{ensure, viol};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Error correction codewords per block and number of blocks, from the standard. Levels L, M, Q, H.
const EC_PER_BLOCK: [[usize; 40]; 4] = [
    [7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28],
    [13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
];

const BLOCKS: [[usize; 40]; 4] = [
    [1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25],
    [1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49],
    [1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68],
    [1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81],
];

fn gf_mul(a: u8, b: u8) -> u8 {
    let mut r: u16 = 0;
    for i in 0..8 {
        if b >> i & 1 != 0 {
            r ^= (a as u16) << i;
        }
    }
    for i in (8..15).rev() {
        if r >> i & 1 != 0 {
            r ^= 0x11D << (i - 8);
        }
    }
    r as u8
}

fn bch(data: u32, generator: u32, bits: u32) -> u32 {
    let mut rem = data << bits;
    let top = 32 - generator.leading_zeros();
    while rem != 0 && 32 - rem.leading_zeros() >= top {
        rem ^= generator << (32 - rem.leading_zeros() - top);
    }
    data << bits | rem
}

struct Bits<'a> {
    data: &'a [u8],
    pos: usize,
}
impl Bits<'_> {
    fn left(&self) -> usize {
        self.data.len() * 8 - self.pos
    }
    fn take(&mut self, n: usize) -> Result<usize, String> {
        if self.left() < n {
            return Err("data ends within a segment".to_owned());
        }
        let mut r = 0;
        for _ in 0..n {
            r = r << 1 | (self.data[self.pos / 8] >> (7 - self.pos % 8) & 1) as usize;
            self.pos += 1;
        }
        Ok(r)
    }
}

const ALNUM: &[u8; 45] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";

/// Decodes modules (rows of a square), returns version and contents.
pub fn decode(m: &[Vec<bool>]) -> Result<(usize, Vec<u8>), String> {
    let size = m.len();
    if size < 21 || size > 177 || size % 4 != 1 || m.iter().any(|r| r.len() != size) {
        return Err(format!("{} rows", size));
    }
    let version = (size - 17) / 4;
    let get = |x: usize, y: usize| m[y][x];
    let mut function = vec![vec![false; size]; size];
    let mut expect = |x: usize, y: usize, dark: bool| -> Result<(), String> {
        function[y][x] = true;
        if m[y][x] != dark {
            Err(format!("wrong module in a fixed pattern, column {} row {}", x, y))
        } else {
            Ok(())
        }
    };
    // Timing first, finders and alignment patterns agree with it where they overlap
    for i in 8..size - 8 {
        expect(i, 6, i % 2 == 0)?;
        expect(6, i, i % 2 == 0)?;
    }
    for (cx, cy) in [(3i32, 3i32), (size as i32 - 4, 3), (3, size as i32 - 4)] {
        for dy in -4i32..=4 {
            for dx in -4i32..=4 {
                let (x, y) = (cx + dx, cy + dy);
                if x >= 0 && y >= 0 && (x as usize) < size && (y as usize) < size {
                    let d = dx.abs().max(dy.abs());
                    expect(x as usize, y as usize, d != 2 && d != 4)?;
                }
            }
        }
    }
    let mut centers = Vec::new();
    if version > 1 {
        let count = version / 7 + 2;
        let step = if version == 32 { 26 } else { (version * 4 + count * 2 + 1) / (count * 2 - 2) * 2 };
        centers.push(6);
        for i in (0..count - 1).rev() {
            centers.push(size - 7 - i * step);
        }
    }
    let last = centers.len().wrapping_sub(1);
    for (i, cx) in centers.iter().enumerate() {
        for (j, cy) in centers.iter().enumerate() {
            if (i == 0 && j == 0) || (i == 0 && j == last) || (i == last && j == 0) {
                continue;
            }
            for dy in -2i32..=2 {
                for dx in -2i32..=2 {
                    expect(
                        (*cx as i32 + dx) as usize,
                        (*cy as i32 + dy) as usize,
                        dx.abs().max(dy.abs()) != 1,
                    )?;
                }
            }
        }
    }
    expect(8, size - 8, true)?;
    let mut read = |positions: Vec<(usize, usize)>| -> u32 {
        let mut v = 0;
        for (i, (x, y)) in positions.into_iter().enumerate() {
            function[y][x] = true;
            v |= (get(x, y) as u32) << i;
        }
        v
    };
    let mut first: Vec<(usize, usize)> = (0..6).map(|i| (8, i)).collect();
    first.extend([(8, 7), (8, 8), (7, 8)]);
    first.extend((9..15).map(|i| (14 - i, 8)));
    let mut second: Vec<(usize, usize)> = (0..8).map(|i| (size - 1 - i, 8)).collect();
    second.extend((8..15).map(|i| (8, size - 15 + i)));
    let (a, b) = (read(first), read(second));
    if a != b {
        return Err("copies of the format information differ".to_owned());
    }
    let format = (a ^ 0x5412) >> 10;
    if bch(format, 0x537, 10) != a ^ 0x5412 {
        return Err("format information is not valid".to_owned());
    }
    let level = [1, 0, 3, 2][(format >> 3) as usize];
    let mask = format & 7;
    if version >= 7 {
        let pos = |swap: bool| -> Vec<(usize, usize)> {
            (0..18)
                .map(|i| {
                    let (x, y) = (size - 11 + i % 3, i / 3);
                    if swap { (y, x) } else { (x, y) }
                })
                .collect()
        };
        let expected = bch(version as u32, 0x1F25, 12);
        if read(pos(false)) != expected || read(pos(true)) != expected {
            return Err("version information is not valid".to_owned());
        }
    }

    // Codewords
    let mut bits = Vec::new();
    let mut x = size as i32 - 1;
    let mut upward = true;
    while x > 0 {
        if x == 6 {
            x -= 1;
        }
        for i in 0..size {
            let y = if upward { size - 1 - i } else { i };
            for x in [x as usize, x as usize - 1] {
                if function[y][x] {
                    continue;
                }
                let flip = match mask {
                    0 => (x + y) % 2 == 0,
                    1 => y % 2 == 0,
                    2 => x % 3 == 0,
                    3 => (x + y) % 3 == 0,
                    4 => (x / 3 + y / 2) % 2 == 0,
                    5 => x * y % 2 + x * y % 3 == 0,
                    6 => (x * y % 2 + x * y % 3) % 2 == 0,
                    _ => ((x + y) % 2 + x * y % 3) % 2 == 0,
                };
                bits.push(get(x, y) ^ flip);
            }
        }
        upward = !upward;
        x -= 2;
    }
    let raw: Vec<u8> = bits
        .chunks(8)
        .filter(|c| c.len() == 8)
        .map(|c| c.iter().fold(0u8, |a, b| a << 1 | *b as u8))
        .collect();
    let blocks = BLOCKS[level][version - 1];
    let ecc = EC_PER_BLOCK[level][version - 1];
    let short = raw.len() / blocks;
    let long_count = raw.len() % blocks;
    let mut parts: Vec<Vec<u8>> = vec![Vec::new(); blocks];
    let mut it = raw.iter();
    for i in 0..short - ecc + 1 {
        for (b, part) in parts.iter_mut().enumerate() {
            if i < short - ecc || b >= blocks - long_count {
                part.push(*it.next().unwrap());
            }
        }
    }
    for _ in 0..ecc {
        for part in parts.iter_mut() {
            part.push(*it.next().unwrap());
        }
    }
    let mut data = Vec::new();
    for part in &parts {
        let mut root = 1u8;
        for i in 0..ecc {
            let syndrome = part.iter().fold(0u8, |s, c| gf_mul(s, root) ^ c);
            if syndrome != 0 {
                return Err(format!("error correction data is not valid, syndrome {}", i));
            }
            root = gf_mul(root, 2);
        }
        data.extend_from_slice(&part[..part.len() - ecc]);
    }

    // Segments
    let mut b = Bits { data: &data, pos: 0 };
    let mut out = Vec::new();
    let range = if version < 10 { 0 } else if version < 27 { 1 } else { 2 };
    while b.left() >= 4 {
        match b.take(4)? {
            0 => break,
            1 => {
                let mut count = b.take([10, 12, 14][range])?;
                while count > 0 {
                    let n = count.min(3);
                    let v = b.take([0, 4, 7, 10][n])?;
                    let text = format!("{:0n$}", v, n = n);
                    if text.len() != n {
                        return Err("digits out of range".to_owned());
                    }
                    out.extend_from_slice(text.as_bytes());
                    count -= n;
                }
            }
            2 => {
                let mut count = b.take([9, 11, 13][range])?;
                while count > 0 {
                    if count >= 2 {
                        let v = b.take(11)?;
                        if v >= 45 * 45 {
                            return Err("alphanumeric value out of range".to_owned());
                        }
                        out.push(ALNUM[v / 45]);
                        out.push(ALNUM[v % 45]);
                        count -= 2;
                    } else {
                        let v = b.take(6)?;
                        if v >= 45 {
                            return Err("alphanumeric value out of range".to_owned());
                        }
                        out.push(ALNUM[v]);
                        count -= 1;
                    }
                }
            }
            4 => {
                let count = b.take([8, 16, 16][range])?;
                for _ in 0..count {
                    out.push(b.take(8)? as u8);
                }
            }
            7 => {
                // ECI, only UTF-8 would be right here
                if b.take(8)? != 26 {
                    return Err("unexpected character encoding".to_owned());
                }
            }
            mode => return Err(format!("unsupported segment type {}", mode)),
        }
    }
    Ok((version, out))
}

/// Modules printed with half blocks.
fn modules(text: &str) -> Result<Vec<Vec<bool>>, String> {
    let mut rows = Vec::new();
    for line in text.lines() {
        let (mut upper, mut lower) = (Vec::new(), Vec::new());
        for c in line.chars() {
            let (u, l) = match c {
                ' ' => (false, false),
                '\u{2580}' => (true, false),
                '\u{2584}' => (false, true),
                '\u{2588}' => (true, true),
                c => return Err(format!("unexpected character {:?} in {:?}", c, line)),
            };
            upper.push(u);
            lower.push(l);
        }
        rows.push(upper);
        rows.push(lower);
    }
    let size = rows.first().map_or(0, |r| r.len());
    if rows.len() == size + 1 && rows[size].iter().all(|m| !m) {
        rows.pop();
    }
    if rows.len() != size {
        return Err(format!("{} rows and {} columns", rows.len(), size));
    }
    Ok(rows)
}

fn data_bits(password: &str) -> (&'static str, usize) {
    let n = password.len();
    if password.is_empty() {
        ("nothing", 0)
    } else if password.bytes().all(|b| b.is_ascii_digit()) {
        ("digits", 4 + 14 + n / 3 * 10 + [0, 4, 7][n % 3])
    } else if password.bytes().all(|b| ALNUM.contains(&b)) {
        ("alphanumeric", 4 + 13 + n / 2 * 11 + n % 2 * 6)
    } else {
        ("bytes", 4 + 16 + n * 8)
    }
}

/// Size of the largest code, level L
const CAPACITY: usize = 2956 * 8;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Source {
    Stored(String),
    Repeat(String, usize),
    Gen(usize, u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct QrCase {
    sources: Vec<Source>,
    shell: bool,
}

fn source() -> BoxedStrategy<Source> {
    let unit = prop_oneof![
        pick(&["0123456789", "8", "AB $%*+-./:9", "A", "Z1", "a", "aB3!", "ä", "日本", "😀x", "\u{301}a", "'\"\\"]),
        printable(6).prop_map(|s| if s.trim().is_empty() { "z".to_owned() } else { s.trim().to_owned() }),
    ];
    prop_oneof![
        6 => printable(30).prop_map(|s| Source::Stored(s.trim().to_owned())),
        3 => "[0-9]{1,40}".prop_map(Source::Stored),
        3 => "[0-9A-Z $%*+./:-]{1,40}".prop_map(|s| Source::Stored(s.trim().to_owned())),
        3 => (1usize..=64, 1u8..16).prop_map(|(len, set)| Source::Gen(len, set)),
        5 => (unit.clone(), 1usize..300).prop_map(|(u, n)| Source::Repeat(u, n)),
        3 => (unit.clone(), 1usize..3200).prop_map(|(u, n)| Source::Repeat(u, n)),
        // Around the limits for bytes, alphanumeric and digits
        2 => (Just("a".to_owned()), 2940usize..2965).prop_map(|(u, n)| Source::Repeat(u, n)),
        1 => (Just("A".to_owned()), 4285usize..4305).prop_map(|(u, n)| Source::Repeat(u, n)),
        1 => (Just("7".to_owned()), 7080usize..7095).prop_map(|(u, n)| Source::Repeat(u, n)),
    ]
    .boxed()
}

fn qr_case() -> BoxedStrategy<QrCase> {
    prop_oneof![
        1 => source().prop_map(|s| QrCase { sources: vec![s], shell: false }),
        4 => proptest::collection::vec(source(), 1..12).prop_map(|sources| QrCase { sources, shell: true }),
    ]
    .boxed()
}

fn qr_test(ctx: &Ctx, case: &QrCase, obs: &mut Obs) -> R {
    let primary = "foobar";
    let mut model = Model::new(primary);
    for (i, s) in case.sources.iter().enumerate() {
        let val = match s {
            Source::Stored(v) => Val::Stored(v.clone()),
            Source::Repeat(u, n) => {
                let total = u.repeat(*n);
                // Exact number of characters for the boundaries
                Val::Stored(total)
            }
            Source::Gen(len, set) => Val::Gen { len: *len, set: *set },
        };
        model.set("a.com", &format!("n{}", i), "", val);
    }
    let env = Env::new(ctx);
    env.write(&writer(primary).write(&model))?;
    let mut shell = if case.shell { Some(Shell::start(&env, false)?) } else { None };
    if let Some(shell) = &mut shell {
        // Unlocked by something else
        let step = StepC { cmd: Cmd::GetAlias { site: "a.com".to_owned() }, style: 0, attempts: vec![] };
        shell.step(&step, &mut model)?;
    }
    let entries: Vec<(Id, Entry)> = model.entries.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    for (i, (id, entry)) in entries.iter().enumerate() {
        obs.extra += 1;
        let password = model.value(id, entry);
        let (kind, bits) = data_bits(&password);
        obs.class(kind);
        let fits = bits <= CAPACITY;
        let args = s(&["show", "a.com", &id.1, ["-q", "--qrcode"][i % 2]]);
        let text;
        match &mut shell {
            Some(shell) => {
                shell.proc.send(&args.join(" "))?;
                let (out, stop) = shell.proc.text()?;
                ensure!(stop == Stop::Prompt(P_SHELL), "{:?} ended with {:?}: {:?}", args, stop, out);
                text = out.strip_suffix(P_SHELL).unwrap().to_owned();
            }
            None => {
                let mut proc = env.start(&args)?;
                let (out, stop) = proc.text()?;
                ensure!(stop == Stop::Prompt(P_PRIMARY), "{:?}: expected a prompt, got {:?} {:?}", args, stop, out);
                proc.send(primary)?;
                let (out, stop) = proc.text()?;
                let expected = if fits { 0 } else { 1 };
                ensure!(stop == Stop::Exit(expected), "{:?} ended with {:?}: {:?}", args, stop, out);
                text = out;
            }
        }
        if !fits {
            obs.class("too long");
            obs.nontrivial();
            let rest = text.strip_prefix("Password retrieved.\n").unwrap_or(&text);
            ensure!(
                rest.starts_with("Error generating QR code: ") && rest.lines().count() == 1,
                "password with {} bytes: expected an error, got {:?}",
                password.len(),
                text
            );
            ensure!(
                !rest.contains(&password[..password.char_indices().nth(20).map_or(password.len(), |(i, _)| i)]),
                "error message contains the password: {:?}",
                rest
            );
            continue;
        }
        let rest = match text.strip_prefix("Password retrieved.\n") {
            Some(r) => r,
            None => viol!("unexpected output of show -q: {:?}", text),
        };
        let result = modules(rest).and_then(|m| decode(&m));
        match result {
            Ok((version, value)) => {
                ensure!(
                    value == password.as_bytes(),
                    "QR code for {:?} contains {:?}",
                    password,
                    String::from_utf8_lossy(&value)
                );
                obs.class(if version < 7 {
                    "version 1-6"
                } else if version < 10 {
                    "version 7-9"
                } else if version < 27 {
                    "version 10-26"
                } else {
                    "version 27-40"
                });
                if !password.is_empty() {
                    obs.nontrivial();
                }
            }
            Err(e) => viol!("QR code for {:?} cannot be decoded, {}:\n{}", password, e, rest),
        }
    }
    if let Some(shell) = shell {
        shell.exit(false)?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19",
        level: "exploration",
        rule: "Stored and generated passwords of all kinds and sizes displayed as QR codes, one-shot or several in a shell; the printed modules are decoded by an independent decoder which also verifies fixed patterns and error correction data. Non-trivial: a password which is not empty.",
        assumptions: &["passwords contain no line breaks", "a password is too long if a single segment doesn't fit the largest code at the lowest error correction level"],
        subs: vec![Box::new(Gen {
            name: "qr",
            quick: 500,
            thorough: 12000,
            strat: qr_case,
            test: qr_test,
            shrink: 150,
        })],
    }]
}
