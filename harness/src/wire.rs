//! The MVD container, written down independently of the code under test.
//!
//! frame = [msec u8] [command u8] [mask 4 bytes, if command&7 == 3] [size u32] [body], except that
//! a set frame (2) has a fixed body of 8 bytes and qwd/empty frames (0, 7) are two bytes only.

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    /// to everyone; the upper bits of the command are unused by servers
    All,
    /// dem_read, as in qwd demos
    Read,
    Stats(u8),
    Single(u8),
    Multi([u8; 4]),
    /// multiple targets, but none: side channel data
    Hidden,
    Set,
    /// command 0 or 7: header only
    Bare(u8),
}

impl Kind {
    pub fn carries_messages(&self) -> bool {
        !matches!(self, Kind::Hidden | Kind::Set | Kind::Bare(_))
    }
}

pub fn put_frame(out: &mut Vec<u8>, dur: u8, kind: &Kind, body: &[u8]) {
    out.push(dur);
    match kind {
        Kind::All => out.push(6),
        Kind::Read => out.push(1),
        Kind::Stats(n) => out.push(5 | n << 3),
        Kind::Single(n) => out.push(4 | n << 3),
        Kind::Multi(m) => {
            out.push(3);
            out.extend_from_slice(m);
        }
        Kind::Hidden => out.extend_from_slice(&[3, 0, 0, 0, 0]),
        Kind::Set => {
            out.push(2);
            debug_assert_eq!(body.len(), 8);
            out.extend_from_slice(body);
            return;
        }
        Kind::Bare(b) => {
            out.push(*b);
            debug_assert!(body.is_empty());
            return;
        }
    }
    out.extend_from_slice(&(body.len() as u32).to_le_bytes());
    out.extend_from_slice(body);
}

#[derive(Clone, Debug)]
pub struct Span {
    pub start: usize,
    pub body: usize,
    pub end: usize,
    pub dur: u8,
    pub cmd: u8,
    pub mask: [u8; 4],
}

impl Span {
    pub fn carries_messages(&self) -> bool {
        match self.cmd & 7 {
            3 => self.mask != [0; 4],
            1 | 4 | 5 | 6 => true,
            _ => false,
        }
    }
}

/// All complete frames from the start.
pub fn walk(d: &[u8]) -> Vec<Span> {
    let mut spans = vec![];
    let mut i = 0;
    while i + 2 <= d.len() {
        let (dur, cmd) = (d[i], d[i + 1]);
        let mut j = i + 2;
        let mut mask = [0; 4];
        if cmd & 7 == 3 {
            if j + 4 > d.len() {
                break;
            }
            mask.copy_from_slice(&d[j..j + 4]);
            j += 4;
        }
        let size = match cmd & 7 {
            0 | 7 => 0,
            2 => 8,
            _ => {
                if j + 4 > d.len() {
                    break;
                }
                let n = u32::from_le_bytes([d[j], d[j + 1], d[j + 2], d[j + 3]]) as usize;
                j += 4;
                n
            }
        };
        if size > d.len() - j {
            break;
        }
        spans.push(Span {
            start: i,
            body: j,
            end: j + size,
            dur,
            cmd,
            mask,
        });
        i = j + size;
    }
    spans
}

/// The end of the last complete frame.
pub fn complete(d: &[u8]) -> usize {
    walk(d).last().map_or(0, |s| s.end)
}

/// The prints that open a message body: (level byte, text).
pub fn opening_prints(b: &[u8]) -> Vec<(u8, Vec<u8>)> {
    let mut r = vec![];
    let mut i = 0;
    while i + 2 <= b.len() && b[i] == 8 {
        let Some(n) = b[i + 2..].iter().position(|c| *c == 0) else {
            break;
        };
        r.push((b[i + 1], b[i + 2..i + 2 + n].to_vec()));
        i += 2 + n + 1;
    }
    r
}

/// The ping updates that open a message body; each must be complete with its packet loss message.
pub fn opening_pings(b: &[u8]) -> Vec<(u8, u16)> {
    let mut r = vec![];
    let mut i = 0;
    while i + 7 <= b.len() && b[i] == 36 && b[i + 4] == 53 {
        r.push((b[i + 1], u16::from_le_bytes([b[i + 2], b[i + 3]])));
        i += 7;
    }
    r
}

pub fn level(id: u8) -> &'static str {
    match id {
        0 => "Low",
        1 => "Medium",
        2 => "High",
        3 => "Chat",
        _ => "Unknown",
    }
}

/// Byte string to the parser's text form: one char per byte.
pub fn uni(b: &[u8]) -> String {
    b.iter().map(|c| *c as char).collect()
}

/// The plain-text form of a QuakeWorld character.
pub fn plain(b: &[u8]) -> String {
    b.iter()
        .map(|c| {
            let c = c & 0x7f;
            match c {
                0x10 => '[',
                0x11 => ']',
                0x12..=0x1b => (b'0' + (c - 0x12)) as char,
                0x20..=0x7e => c as char,
                0 | 5 | 14 | 15 | 28 => '•',
                _ => ' ',
            }
        })
        .collect()
}

pub fn find(d: &[u8], n: &[u8]) -> Option<usize> {
    d.windows(n.len()).position(|w| w == n)
}

pub fn find_last(d: &[u8], n: &[u8]) -> Option<usize> {
    d.windows(n.len()).rposition(|w| w == n)
}
