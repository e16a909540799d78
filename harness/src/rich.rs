//! Recordings with a bit of everything: settings, roster, traffic, markers and statistics.
use crate::engine::Src;
use crate::gen::*;
use crate::ktx::{self, Doc, DocOpts};

#[derive(Clone, Default)]
pub struct Rich {
    pub demo: Demo,
    pub info: Option<Pairs>,
    pub hoony: bool,
    pub doc: Option<Doc>,
    pub ended: bool,
}

#[derive(Clone)]
pub struct Opts {
    pub roster: RosterOpts,
    pub mix: Mix,
    /// percentages
    pub info: u64,
    pub spawn: u64,
    pub stats: u64,
    pub marks: u64,
    pub doc: DocOpts,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            roster: RosterOpts {
                max: 10,
                ..RosterOpts::default()
            },
            mix: Mix {
                frames: 12,
                ..Mix::default()
            },
            info: 92,
            spawn: 94,
            stats: 40,
            marks: 60,
            doc: DocOpts {
                players: 6,
                ..DocOpts::default()
            },
        }
    }
}

pub fn matchdate_msg(text: &[u8]) -> Msg {
    let mut t = b"matchdate: ".to_vec();
    t.extend_from_slice(text);
    t.push(b'\n');
    Msg::print(2, t)
}

pub fn standby_msg() -> Msg {
    Msg::Raw(b"\x34status\0Standby\0".to_vec())
}

/// Some of them close to hoonymode.
pub const OTHER_MODES: [&str; 12] = [
    "4on4", "1on1", "ffa", "ctf", "race", "hoonymode2", "hoony", "xhoonymode", "Hoonymode", "HOONYMODE", "hoonymod",
    "hoony mode",
];

pub const MATCH_OVER_TEXT: &[u8] = b"The match is over\n";
pub const PAUSED_TEXTS: [&[u8]; 2] = [b"Server is paused", b"paused the game"];

pub fn aborted_text() -> Vec<u8> {
    // the server colors the letters, not the spaces
    b"Match stopped by majority vote"
        .iter()
        .map(|c| if *c == b' ' { *c } else { c | 0x80 })
        .chain([b'\n'])
        .collect()
}

pub fn marker_frame(src: &mut Src, mark: u8) -> Frame {
    let m = match mark {
        MATCH_OVER => Msg::print(2, MATCH_OVER_TEXT.to_vec()),
        STANDBY => standby_msg(),
        _ => matchdate_msg(b"2024-04-26 16:59:12 CEST"),
    };
    let mut msgs = vec![];
    if src.chance(1, 4) {
        msgs.push(Msg::print(3, b"gg\n".to_vec()));
    }
    msgs.push(m);
    if src.chance(1, 4) {
        msgs.push(Msg::Raw(noise_msg(src)));
    }
    let mut f = Frame::new(dur(src), target(src), msgs);
    f.marks = mark;
    f
}

/// Positions where a frame may be inserted without separating what belongs together.
pub fn gaps(frames: &[Frame], from: usize) -> Vec<usize> {
    (from..=frames.len())
        .filter(|i| !frames.get(*i).is_some_and(|f| f.glued))
        .collect()
}

/// Inserts at a gap behind the spawn block.
pub fn insert(src: &mut Src, d: &mut Demo, fs: Vec<Frame>) {
    let g = gaps(&d.frames, d.body_from);
    let at = if g.is_empty() { d.frames.len() } else { *src.pick(&g) };
    d.frames.splice(at..at, fs);
}

pub fn rich(src: &mut Src, o: &Opts) -> Rich {
    let mut r = Rich::default();
    if src.chance(o.info, 100) {
        let mut p = usual_info(src);
        if src.chance(1, 4) {
            // fewer of them
            p.retain(|_| src.chance(1, 2));
        }
        if src.chance(1, 2) {
            let epoch = match src.draw(4) {
                0 => *src.pick(&[i32::MAX, i32::MIN, i32::MAX - 1, -1, 0, 1]),
                _ => src.draw(1 << 31) as i32,
            };
            p.push((b"epoch".to_vec(), epoch.to_string().into_bytes()));
        }
        match src.weighted(&[10, 4, 4]) {
            1 => {
                // maybe in the server's other character set
                let color = if src.chance(1, 6) { 0x80 } else { 0 };
                p.push((b"mode".to_vec(), b"hoonymode".iter().map(|c| c | color).collect()));
                r.hoony = true;
            }
            2 => p.push((b"mode".to_vec(), src.pick(&OTHER_MODES).as_bytes().to_vec())),
            _ => {}
        }
        if src.chance(1, 8) {
            // the mode of another kind
            let k: &[u8] = *src.pick(&[b"ktxmode".as_slice(), b"hostname", b"xmode", b"mod", b"matchtag"]);
            if !p.iter().any(|(x, _)| x == k) {
                let at = src.size(0, p.len());
                p.insert(at, (k.to_vec(), b"hoonymode".to_vec()));
            }
        }
        p.push((b"status".to_vec(), b"Countdown".to_vec()));
        r.info = Some(p);
    }
    let cs = roster(src, &o.roster);
    let s = r.info.as_ref().map(infostring);
    let mut frames = head_frames(src, s.as_deref());
    let spawn = src.chance(o.spawn, 100);
    let mut cs2 = vec![];
    if spawn {
        frames.extend(spawn_frames(src, &cs));
        frames.extend(filler(src));
        cs2 = cs.clone();
    }
    let body_from = frames.len();
    frames.extend(timeline(src, &o.mix, &cs));
    r.demo = Demo {
        frames,
        roster: cs2,
        body_from,
    };
    for mark in [MATCHDATE, STANDBY, MATCH_OVER] {
        if src.chance(o.marks, 100) {
            let f = marker_frame(src, mark);
            insert(src, &mut r.demo, vec![f]);
            if src.chance(1, 6) {
                let f = marker_frame(src, mark);
                insert(src, &mut r.demo, vec![f]);
            }
        }
    }
    if src.chance(1, 8) {
        let f = Frame::new(dur(src), target(src), vec![Msg::print(2, aborted_text())]);
        insert(src, &mut r.demo, vec![f]);
    }
    if src.chance(1, 8) {
        let t = src.pick(&PAUSED_TEXTS).to_vec();
        let f = Frame::new(dur(src), target(src), vec![Msg::print(2, with_newline(t))]);
        insert(src, &mut r.demo, vec![f]);
    }
    if src.chance(o.stats, 100) {
        let d = ktx::doc(src, o.doc);
        let fs = ktx::blocks(src, d.text.as_bytes());
        insert(src, &mut r.demo, fs);
        r.doc = Some(d);
    }
    if src.chance(3, 4) {
        let mut e = end_frame(src);
        if src.chance(1, 10) {
            let t = src.pick(&[PAUSED_TEXTS[0], PAUSED_TEXTS[1], b"Match stopped by majority vote"]).to_vec();
            e.msgs.insert(0, Msg::print(2, with_newline([b"a ".as_slice(), &t].concat())));
        }
        r.demo.frames.push(e);
        r.ended = true;
    }
    r
}
