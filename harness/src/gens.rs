//! Generators shared by several properties.

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;

/// Any text without NUL (used as separator in the format).
pub fn text(max: usize) -> BoxedStrategy<String> {
    vec(
        prop_oneof![
            6 => prop::char::range(' ', '~'),
            1 => any::<char>(),
            1 => prop::char::range('\u{80}', '\u{7ff}'),
            1 => select(vec!['"', '\\', '\n', '\r', '\t', '\u{7f}', '\u{1}', '\u{2028}', '€', '😀', 'é', '\u{301}']),
        ],
        0..=max,
    )
    .prop_map(|v| v.into_iter().filter(|c| *c != '\0').collect())
    .boxed()
}

pub fn site() -> BoxedStrategy<String> {
    prop_oneof![
        12 => select(vec![
            "a.com", "www.a.com", "b.com", "www.b.com", "c.org", "www.c.org", "d.net", "aa.com", "a.co",
        ]),
        4 => select(vec![
            "A.com", "a.com ", "com", "www.", "www", "www.www.a.com", "www..com", "WWW.a.com", "", "a.com:8080",
            "ä.example", "日本.jp", "site:", "wwww.a.com", "a.com.", "*", "a.*", "a?com", "ww.a.com", "1",
        ]),
        1 => long("long.example."),
    ]
    .prop_map(|s| s.to_string())
    .or_text(text(12))
    .boxed()
}

/// Texts with a long common start
pub fn long(unit: &'static str) -> BoxedStrategy<&'static str> {
    let mut list: Vec<&'static str> = Vec::new();
    for len in [63, 64, 65, 127, 260] {
        let start: String = unit.chars().cycle().take(len).collect();
        for end in ["", "a", "b"] {
            list.push(Box::leak(format!("{}{}", start, end).into_boxed_str()));
        }
    }
    select(list).boxed()
}

trait Union2 {
    fn or_text(self, other: BoxedStrategy<String>) -> BoxedStrategy<String>;
}
impl<S: Strategy<Value = String> + 'static> Union2 for S {
    fn or_text(self, other: BoxedStrategy<String>) -> BoxedStrategy<String> {
        prop_oneof![9 => self.boxed(), 1 => other].boxed()
    }
}

pub fn name() -> BoxedStrategy<String> {
    prop_oneof![
        1 => long("somebody "),
        10 => select(vec!["me", "you", "me2", "m", "ME", "me ", "a.com"]),
        3 => select(vec!["", "1", "m*", "?e", "name with space", "ünïcode", "m\"e", "m\\e", "me:1", "me/1", "\n"]),
    ]
    .prop_map(|s| s.to_string())
    .or_text(text(12))
    .boxed()
}

pub fn revision() -> BoxedStrategy<String> {
    prop_oneof![
        8 => select(vec!["1", "", "2", "3"]),
        3 => select(vec!["10", "01", "11", "0", "a", " 1", "1 ", "-1", "1.0", "１"]),
    ]
    .prop_map(|s: &str| s.to_owned())
    .or_text(text(6))
    .boxed()
}

pub fn secret() -> BoxedStrategy<String> {
    prop_oneof![
        6 => text(24),
        1 => text(120),
        1 => Just(String::new()),
        1 => "[ -~]{1,20}",
        1 => select(vec![" lead", "trail ", "null", "{\"a\":1}", "\\u0041", "1", "true", "generated2", "ſ", "ﬀ", "Å", "A\u{30a}"])
            .prop_map(|s: &str| s.to_owned()),
        // Almost the same
        2 => select(vec!["same", " same", "same ", "SAME", "same\n", "\tsame", "sa me", "same same"]).prop_map(|s: &str| s.to_owned()),
        1 => (vec(any::<char>(), 1..40)).prop_map(|v| v.into_iter().filter(|c| *c != '\0').collect::<String>()),
        1 => (1usize..40, "[a-z]").prop_map(|(n, s)| s.repeat(n * 13)),
        1 => prop_oneof![20 => Just(0usize), 1 => 900usize..70000].prop_flat_map(|n| text(12).prop_map(move |s| format!("{}{}", "long ä".repeat(n / 7), s))),
    ]
    .boxed()
}

pub fn primary() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-zA-Z0-9]{6,16}",
        1 => "[ -~]{0,20}",
        1 => text(20),
        1 => select(vec!["", "x", "passwörd", "pass word", "日本語パスワード", "\"quoted\\"]).prop_map(|s: &str| s.to_owned()),
        1 => "[a-z]{60,140}",
    ]
    .boxed()
}

pub fn length() -> BoxedStrategy<usize> {
    prop_oneof![6 => 4usize..=24, 2 => 1usize..=6, 1 => 25usize..=64].boxed()
}

pub fn charset() -> BoxedStrategy<u8> {
    (1u8..16).boxed()
}
