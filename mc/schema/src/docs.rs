//! Adversarial documentation: every sequence of fragments over several alphabets, at every kind of
//! position a doc comment can have.

use crate::util::Files;

pub struct Alphabet {
    pub name: &'static str,
    pub items: &'static [&'static str],
    pub quick: usize,
    pub thorough: usize,
}

/// Characters that matter to markdown links, positions and line handling.
const CHARS: &[&str] = &[
    "[", "]", "(", ")", "`", "\\", "S", ":", "<", ">", "!", " ", "\t", "\r", "\u{e9}", "\n/// ", "\n///", "*",
];

/// Link syntax in bigger pieces, so that longer texts are reached.
const LINKS: &[&str] = &[
    "[S]", "[`S`]", "[x]", "[x](S)", "[x](q::S)", "[`", "`]", "](", "[](", ")", "[x]: S", "![", "\n/// ", "\r\n///", "\n///  ", "\r", "\u{e9}", "\u{1f600}", "\t",
    "&amp;", "S::f", "self::", "::", "<S>", "<http://x.y>", "http://x.y", "\n//x\n///",
];

/// Block structure around links.
const BLOCKS: &[&str] = &[
    "- ", "> ", "# ", "```", "    ", "\t", "1. ", "| a |", "|-|", "\n/// ", "\n///", "[S]", "[zz]", "***", "---", "===", "\u{a0}", "\r", "\\", "<a>", "[^1]", "[^1]: ", "- [x] ",
    "~~", "<!--",
];

/// Link targets: every path of up to four components.
const PATHS: &[&str] = &[
    "::", "S", "E", "N", "V", "K", "f", "A", "fb", "g", "h", "ev", "q", "main", "self", "super", "crate", "zz", "args", "ok", "err", "#", " ", "\u{e9}", "/", "aldrin:", "http:", "mod@", "()",
];

/// Inside of a block, where positions are the hardest to keep track of.
const INSIDE: &[&str] = &["[x]", "[", "]", "\u{e9}", "\u{1f600}", " ", "|", "`", "&amp;", "\t", "\n/// ", "\\"];

pub const BLOCK_STARTS: &[&str] = &[
    "x\n/// |-|\n/// ",
    "| x | y |\n/// |-|-|\n/// | ",
    "- ",
    "> - ",
    "[^1]\n///\n/// [^1]: ",
    "# ",
    "1. x\n///\n///    ",
    "\u{e9}\r",
    "~~\u{e9}",
    "--\u{e9}... \"",
];

pub const BLOCK_ITEMS: &[&str] = INSIDE;

pub const ALPHABETS: &[Alphabet] = &[
    Alphabet { name: "chars", items: CHARS, quick: 4, thorough: 5 },
    Alphabet { name: "links", items: LINKS, quick: 3, thorough: 4 },
    Alphabet { name: "blocks", items: BLOCKS, quick: 3, thorough: 4 },
    Alphabet { name: "paths", items: PATHS, quick: 3, thorough: 4 },
];

/// A schema with every kind of definition; `@` is replaced by a doc comment, at one position only.
const TEMPLATE: &str = "@0import q;
@1struct S {
@2    f @ 1 = q::S;
@3    fb = fallback;
}
@4enum E {
@5    A @ 1;
@6    Fb = fallback;
}
@7newtype N = u8;
@8const K = u8(1);
@9service V {
    uuid = 01234567-89ab-cdef-0123-456789abcdef;
    version = 1;
@a    fn g @ 1 {
        args = struct {
@b            x @ 1 = u8;
        }
        ok = S;
        err = enum {
@c            X @ 1;
        }
    }
@d    event ev @ 1 = u8;
@e    fn h = fallback;
@f    event k = fallback;
}
";
pub const POSITIONS: &[char] = &['1', '0', '2', '9', 'a', 'b', 'c', 'd', '3', '4', '5', '6', '7', '8', 'e', 'f'];

pub fn files(pos: char, text: &str) -> Files {
    let inline = matches!(pos, '0' | 'b' | 'c');
    let mut src = String::with_capacity(TEMPLATE.len() + text.len() + 16);
    let mut it = TEMPLATE.chars();
    while let Some(c) = it.next() {
        if c == '@' {
            match it.next().unwrap() {
                ' ' => src.push_str("@ "),
                k if k == pos => {
                    let t = format!("/// {text}\n");
                    if inline {
                        src += &t.replace("///", "//!");
                    } else {
                        src += &t;
                    }
                }
                _ => {}
            }
        } else {
            src.push(c);
        }
    }
    Files::one(src).with("q", "//! [S]\nstruct S {\n    f @ 1 = u8;\n}\n")
}
