//! Attachment of the comments in the gap between two adjacent tokens, from the rules documented in
//! descriptor.proto (SourceCodeInfo.Location) and protoc's tokenizer.

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Gap {
    /// Comment attached to the declaration that ends at the token before the gap.
    pub trailing: Option<String>,
    pub detached: Vec<String>,
    /// Comment attached to the declaration that starts at the token after the gap.
    pub leading: Option<String>,
}

#[derive(Debug)]
enum Item {
    Newline,
    Line(String),
    Block(String),
}

fn items(gap: &str) -> Vec<Item> {
    let mut out = vec![];
    let mut rest = gap;
    while let Some(c) = rest.chars().next() {
        if c == '\n' {
            out.push(Item::Newline);
            rest = &rest[1..];
        } else if rest.starts_with("//") || c == '#' {
            let from = if c == '#' { 1 } else { 2 };
            let end = rest.find('\n').map_or(rest.len(), |i| i + 1);
            out.push(Item::Line(rest[from..end].replace("\r\n", "\n")));
            rest = &rest[end..];
        } else if rest.starts_with("/*") {
            let end = rest[2..].find("*/").expect("terminated") + 2;
            out.push(Item::Block(block_text(&rest[2..end])));
            rest = &rest[end + 2..];
        } else {
            rest = &rest[c.len_utf8()..];
        }
    }
    out
}

/// The body of a block comment: on every line but the first, indentation and one asterisk are dropped.
pub fn block_text(body: &str) -> String {
    let body = body.replace("\r\n", "\n");
    let mut out = String::new();
    for (i, line) in body.split('\n').enumerate() {
        if i == 0 {
            out.push_str(line);
            continue;
        }
        out.push('\n');
        let line = line.trim_start_matches([' ', '\t', '\r', '\x0b', '\x0c']);
        out.push_str(line.strip_prefix('*').unwrap_or(line));
    }
    out
}

/// `first`: the gap starts the file. `closes`: the gap is followed by a closing bracket or the end of the file.
pub fn attach(gap: &str, first: bool, closes: bool) -> Gap {
    let items = items(gap);
    let mut g = Gap::default();
    // (1) what follows the previous token on its own line
    let mut rest = &items[..];
    let mut may_trail = !first;
    let mut groups: Vec<(String, bool)> = vec![]; // (text, is the last thing before a blank line or the token)
    if !first {
        match rest {
            [Item::Line(t), tail @ ..] => {
                g.trailing = Some(t.clone());
                may_trail = false;
                rest = tail;
            }
            [Item::Block(t), Item::Newline, tail @ ..] => {
                if SAME_LINE_BLOCK_TRAILS {
                    g.trailing = Some(t.clone());
                    may_trail = false;
                } else {
                    groups.push((t.clone(), false));
                }
                rest = tail;
            }
            // a block comment with more on its line belongs to neither side
            [Item::Block(_), ..] => return g,
            [Item::Newline, tail @ ..] => rest = tail,
            [] => {}
        }
    }
    // (2) whole lines: split into comments
    let mut leading_open = !groups.is_empty();
    let mut in_lines = false;
    let mut first_group_ends_attached = may_trail;
    let mut seen_blank = false;
    let mut i = 0;
    while i < rest.len() {
        match &rest[i] {
            Item::Newline => {
                if groups.is_empty() {
                    seen_blank = true;
                }
                leading_open = false;
                in_lines = false;
                i += 1;
            }
            Item::Line(t) => {
                if in_lines {
                    groups.last_mut().unwrap().0.push_str(t);
                } else {
                    if groups.is_empty() && seen_blank {
                        first_group_ends_attached = false;
                    }
                    groups.push((t.clone(), false));
                }
                in_lines = true;
                leading_open = true;
                i += 1;
            }
            Item::Block(t) => {
                if groups.is_empty() && seen_blank {
                    first_group_ends_attached = false;
                }
                groups.push((t.clone(), false));
                in_lines = false;
                leading_open = true;
                i += 1;
                if let Some(Item::Newline) = rest.get(i) {
                    i += 1;
                }
            }
        }
    }
    // (3) distribute
    let mut texts: Vec<String> = groups.into_iter().map(|g| g.0).collect();
    if leading_open && !closes {
        g.leading = texts.pop();
    }
    if first_group_ends_attached && !texts.is_empty() {
        g.trailing = Some(texts.remove(0));
    }
    g.detached = texts;
    g
}

/// protoc: a block comment that ends the line of the previous declaration is its trailing comment.
pub const SAME_LINE_BLOCK_TRAILS: bool = true;
