//! Model-based generation of recordings: structured events first, bytes and expected results
//! derived from them separately.
use std::collections::BTreeMap;

use crate::engine::Src;
use crate::wire::{put_frame, uni, Kind};

// ---------------------------------------------------------------- tables (pinned here on purpose)

pub const DEATHS: &[&str] = &[
    " sleeps with the fishes",
    " sucks it down",
    " gulped a load of slime",
    " can't exist on slime alone",
    " burst into flames",
    " turned into hot slag",
    " visits the Volcano God",
    " cratered",
    " fell to his death",
    " fell to her death",
    " blew up",
    " was spiked",
    " was zapped",
    " ate a lavaball",
    " died",
    " tried to leave",
    " was squished",
];

pub const SUICIDES_BY_WEAPON: &[&str] = &[
    " tries to put the pin back in",
    " becomes bored with life",
    " discovers blast radius",
    " electrocutes himself",
    " electrocutes herself",
    " railcutes himself",
    " railcutes herself",
    " discharges into the slime",
    " discharges into the lava",
    " discharges into the water",
    " heats up the water",
];

pub const SUICIDE: &str = " suicides";

pub const TEAMKILLS: &[&str] = &[
    " squished a teammate",
    " mows down a teammate",
    " checks his glasses",
    " checks her glasses",
    " gets a frag for the other team",
    " loses another friend",
];

pub const ANON_TEAMKILLS: &[&str] = &[
    " was telefragged by his teammate",
    " was telefragged by her teammate",
    " was crushed by his teammate",
    " was crushed by her teammate",
    " was jumped by his teammate",
    " was jumped by her teammate",
];

/// (before the second name, after it); the killer comes first
pub const KILLER_FIRST: &[(&str, &str)] = &[
    (" stomps ", ""),
    (" squishes ", ""),
    (" rips ", " a new one"),
];

/// the victim comes first
pub const VICTIM_FIRST: &[(&str, &str)] = &[
    (" was ax-murdered by ", ""),
    (" softens ", "'s fall"),
    (" tried to catch ", ""),
    (" was crushed by ", ""),
    (" was jumped by ", ""),
    (" chewed on ", "'s boomstick"),
    (" was body pierced by ", ""),
    (" was nailed by ", ""),
    (" was railed by ", ""),
    (" was telefragged by ", ""),
    (" accepts ", "'s discharge"),
    (" drains ", "'s batteries"),
    (" was lead poisoned by ", ""),
    (" accepts ", "'s shaft"),
    (" ate 2 loads of ", "'s buckshot"),
    (" was perforated by ", ""),
    (" was punctured by ", ""),
    (" was ventilated by ", ""),
    (" ate 8 loads of ", "'s buckshot"),
    (" gets a natural disaster from ", ""),
    (" rides ", "'s rocket"),
    (" was gibbed by ", "'s rocket"),
    (" was straw-cuttered by ", ""),
    (" eats ", "'s pineapple"),
    (" was gibbed by ", "'s grenade"),
    (" was brutalized by ", "'s quad rocket"),
    (" was smeared by ", "'s quad rocket"),
    (" was hooked by ", ""),
];

pub const FLAG_FIELDS: [&str; 7] = [
    "captures",
    "pickups",
    "returns",
    "carrier_frags",
    "defends",
    "carrier_defends",
    "carrier_defends_vs_aggressive",
];

/// (field, text after the name) in QuakeWorld bytes, as latin-1
pub const FLAGS: &[(usize, &str)] = &[
    (0, " ãáðôõòåä the ÒÅÄ flag!\n"),
    (0, " ãáðôõòåä the ÂÌÕÅ flag!\n"),
    (1, " çïô the ÒÅÄ flag!\n"),
    (1, " çïô the ÂÌÕÅ flag!\n"),
    (2, " òåôõòîåä the ÒÅÄ flag!\n"),
    (2, " òåôõòîåä the ÂÌÕÅ flag!\n"),
    (3, " gets an assist for returning his flag!\n"),
    (3, " gets an assist for fragging the flag carrier!\n"),
    (4, " defends the ÒÅÄ flag\n"),
    (4, " defends the ÂÌÕÅ flag\n"),
    (5, " defends ÒÅÄ's flag carrier\n"),
    (5, " defends ÂÌÕÅ's flag carrier\n"),
    (6, " defends ÒÅÄ's flag carrier against an aggressive enemy\n"),
    (6, " defends ÂÌÕÅ's flag carrier against an aggressive enemy\n"),
];

pub fn latin1(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}

/// Texts that must not occur by accident in a name or in noise.
fn fragments() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for t in DEATHS.iter().chain(SUICIDES_BY_WEAPON).chain(TEAMKILLS).chain(ANON_TEAMKILLS) {
        v.push(t.to_string());
    }
    v.push(SUICIDE.to_string());
    for (a, b) in KILLER_FIRST.iter().chain(VICTIM_FIRST) {
        v.push(a.to_string());
        if !b.is_empty() {
            v.push(b.to_string());
        }
    }
    v.push("teammate".to_string());
    v.push("flag".to_string());
    v.push("'s".to_string());
    v
}

/// Ends and starts of a name that would form an obituary text together with one beside the name,
/// such as the name " was" before " squished a teammate".
fn straddling() -> (Vec<String>, Vec<String>) {
    let all: Vec<String> = fragments().iter().map(|f| f.trim_end_matches('\n').to_string()).collect();
    let (mut ends, mut starts) = (vec![], vec![]);
    for g in &all {
        for (k, _) in g.char_indices().skip(1) {
            let (a, b) = g.split_at(k);
            for f in &all {
                if f.starts_with(b) || (b.starts_with(f.as_str()) && f != "'s") {
                    ends.push(a.to_string());
                }
                if f.ends_with(a) && f.len() > 2 {
                    starts.push(b.to_string());
                }
            }
        }
    }
    for v in [&mut ends, &mut starts] {
        v.sort();
        v.dedup();
    }
    (ends, starts)
}

// ---------------------------------------------------------------- names and values

fn ok_char(b: u8) -> bool {
    !matches!(b, 0 | b'\n' | b'"' | b'\\')
}

const WORDS: &[&str] = &[
    "a", "player", "Milton", "carapace", "xantom", "ParadokS", "red", "blue", "bot", "x", "HoLy",
    "/ bro", "axe", "1", "n", "name", "team", "by", "was", "flag-less", "zero", "Zero", "ZERO",
    "s", "his", "her", "[ServeMe]", "unnamed", "console", "server", "spec", "spectator", "none", "null", "world",
    "QTV", "EZTV", "guest", "nobody", "0", "-", "true", "yes", "admin", "unconnected", "?",
];

/// 1..=max bytes of any Quake characters that can stand in an info string and round-trip.
pub fn text(src: &mut Src, max: usize) -> Vec<u8> {
    let mut out: Vec<u8> = match src.weighted(&[5, 3, 3, 2, 2]) {
        0 => src.pick(WORDS).as_bytes().to_vec(),
        // colored
        1 => {
            let w = src.pick(WORDS).as_bytes().to_vec();
            w.iter().map(|c| c | 0x80).collect()
        }
        // plain with brackets, digits and spaces
        2 => {
            let mut v = vec![];
            while src.more(v.len(), 1, max.min(24), 6) {
                v.push(*src.pick(b"abcXYZ019 .-_[](){}<>!?'^~\x10\x11\x12\x1b\x90\x91\x92\x9b\x1c\x05\x8e"));
            }
            v
        }
        // anything
        3 => {
            let mut v = vec![];
            while src.more(v.len(), 1, max, 8) {
                v.push(src.byte());
            }
            v
        }
        // long
        _ => {
            let c = src.byte();
            vec![c; src.size(1, max)]
        }
    };
    out.truncate(max);
    for b in &mut out {
        if !ok_char(*b) {
            *b = b'_';
        }
    }
    if out.is_empty() {
        out.push(b'a');
    }
    // blank characters at an edge, of every kind that a text can hold
    if src.chance(1, 10) {
        let blank = *src.pick(&[b' ', b'\t', 0x0b, 0x0c, b'\r', 0x85, 0xa0, 0x89, 0x8d]);
        if src.chance(1, 2) && out.len() < max {
            out.push(blank);
        } else if src.chance(1, 2) && out.len() < max {
            out.insert(0, blank);
        } else {
            let last = out.len() - 1;
            out[last] = blank;
        }
    }
    // obituaries must stay unambiguous
    if !harmless(&out) {
        for b in &mut out {
            if matches!(*b, b' ' | b'\'') {
                *b = b'_';
            }
        }
        let probe = format!(" {} ", uni(&out));
        let name = probe[1..probe.len() - 1].to_string();
        if FRAGMENTS.with(|f| f.iter().any(|f| probe.contains(f.as_str())))
            || STRADDLING.with(|(ends, starts)| {
                ends.iter().any(|p| name.ends_with(p.as_str())) || starts.iter().any(|p| name.starts_with(p.as_str()))
            })
        {
            out = b"q".to_vec();
        }
    }
    out
}

/// Neither holds a part of an obituary nor forms one together with the text beside it.
pub fn harmless(name: &[u8]) -> bool {
    let probe = format!(" {} ", uni(name));
    !(FRAGMENTS.with(|f| f.iter().any(|f| probe.contains(f.trim_end_matches('\n'))))
        || STRADDLING.with(|(ends, starts)| {
            let name = &probe[1..probe.len() - 1];
            ends.iter().any(|p| name.ends_with(p.as_str())) || starts.iter().any(|p| name.starts_with(p.as_str()))
        }))
}

thread_local! {
    static FRAGMENTS: Vec<String> = fragments();
    static STRADDLING: (Vec<String>, Vec<String>) = straddling();
}

thread_local! {
    static TOKENS: std::cell::RefCell<Option<Vec<Vec<u8>>>> = const { std::cell::RefCell::new(None) };
}

/// From here on, names are tokens such as "(P0001)", which occur nowhere else.
pub struct Tokens(());

pub fn start_tokens() -> Tokens {
    TOKENS.with(|t| *t.borrow_mut() = Some(vec![]));
    Tokens(())
}

impl Drop for Tokens {
    fn drop(&mut self) {
        TOKENS.with(|t| *t.borrow_mut() = None);
    }
}

pub fn end_tokens(t: Tokens) -> Vec<Vec<u8>> {
    let made = TOKENS.with(|t| t.borrow_mut().take()).unwrap_or_default();
    drop(t);
    made
}

/// A name not in `taken`.
pub fn fresh(src: &mut Src, max: usize, taken: &[Vec<u8>]) -> Vec<u8> {
    let token = TOKENS.with(|t| {
        t.borrow_mut().as_mut().map(|v| {
            let n = format!("(P{:04})", v.len()).into_bytes();
            v.push(n.clone());
            n
        })
    });
    if let Some(t) = token {
        return t;
    }
    let mut n = text(src, max);
    let mut k = 0;
    while taken.contains(&n) {
        let suffix = format!("{k}");
        n.truncate(max.saturating_sub(suffix.len()));
        n.extend_from_slice(suffix.as_bytes());
        k += 1;
    }
    n
}

// ---------------------------------------------------------------- roster

#[derive(Clone, Debug, Default)]
pub struct Client {
    pub slot: u8,
    pub uid: u32,
    pub name: Vec<u8>,
    pub team: Vec<u8>,
    pub color: [u8; 2],
    pub spectator: bool,
    pub bot: bool,
    pub auth: Option<Vec<u8>>,
    pub cc: Option<Vec<u8>>,
    pub pairs: Vec<(Vec<u8>, Vec<u8>)>,
}

impl Client {
    pub fn userinfo(&self) -> Vec<u8> {
        let mut s = vec![];
        for (k, v) in &self.pairs {
            s.push(b'\\');
            s.extend_from_slice(k);
            s.push(b'\\');
            s.extend_from_slice(v);
        }
        s
    }
}

fn flag_value(src: &mut Src, on: bool) -> Vec<u8> {
    if on {
        src.pick(&["1", "2", "01", "-1", "255", "256"]).as_bytes().to_vec()
    } else {
        src.pick(&["0", "00", "no", "1x", "-0"]).as_bytes().to_vec()
    }
}

fn color_value(src: &mut Src) -> (u8, Option<Vec<u8>>) {
    match src.weighted(&[12, 2, 1, 1]) {
        0 => {
            let c = src.draw(17) as u8;
            (c, Some(c.to_string().into_bytes()))
        }
        1 => (0, None),
        2 => {
            let c = src.byte();
            (c, Some(c.to_string().into_bytes()))
        }
        _ => (0, Some(b"pink".to_vec())),
    }
}

#[derive(Clone)]
pub struct RosterOpts {
    pub max: usize,
    pub min: usize,
    pub unique_names: bool,
    pub spectators: u64,
    pub bots: u64,
    /// names and user info as long as a recording can hold
    pub long: bool,
}

impl Default for RosterOpts {
    fn default() -> Self {
        RosterOpts {
            max: 16,
            min: 0,
            unique_names: true,
            spectators: 5,
            bots: 6,
            long: false,
        }
    }
}

pub fn roster(src: &mut Src, o: &RosterOpts) -> Vec<Client> {
    let mut cs: Vec<Client> = vec![];
    let mut slot: u32 = 0;
    let mut names: Vec<Vec<u8>> = vec![];
    let mut teams: Vec<Vec<u8>> = vec![];
    let gap_style = src.weighted(&[3, 3, 1, 1]);
    // many clients with as much user info as a server sends
    let bulky = o.max > 20 && src.chance(1, 2);
    let min = if bulky { o.max - src.draw(8) as usize } else { o.min };
    while src.more(cs.len(), min, o.max, (o.max + 1) / 2) {
        let left = (o.max - cs.len()) as u32;
        let gap = match gap_style {
            0 => 0,
            1 => src.draw(3) as u32,
            2 => src.draw(9) as u32,
            _ => src.draw(32) as u32,
        };
        if slot + gap + left <= 32 {
            slot += gap;
        }
        if !o.unique_names && !cs.is_empty() && src.chance(1, 16) {
            // the very same user info as that of another client
            let mut c = src.pick(&cs).clone();
            c.slot = slot as u8;
            if src.chance(1, 2) {
                c.uid = src.draw(1 << 16) as u32;
            }
            slot += 1;
            cs.push(c);
            continue;
        }
        let mut c = Client {
            slot: slot as u8,
            uid: match src.weighted(&[5, 2, 1]) {
                0 => 1 + src.draw(200) as u32,
                1 => src.draw(1 << 16) as u32,
                _ => src.draw(1 << 24) as u32,
            },
            ..Client::default()
        };
        slot += 1;
        c.name = if o.unique_names || src.chance(3, 4) || names.is_empty() {
            let most = if o.long && src.chance(1, 8) { 90 } else { 31 };
            fresh(src, most, &names)
        } else {
            src.pick(&names).clone()
        };
        names.push(c.name.clone());
        c.pairs.push((b"name".to_vec(), c.name.clone()));
        if src.chance(9, 10) {
            c.team = if teams.is_empty() || src.chance(1, 4) {
                let t = match src.weighted(&[4, 2, 3]) {
                    0 => src.pick(&["red", "blue", "x", "pol", "none", "spec", "0", "yellow", "green", "white"]).as_bytes().to_vec(),
                    // differs from the others in case or color only
                    1 => {
                        let base = b"red".to_vec();
                        base.iter()
                            .map(|b| match src.draw(3) {
                                0 => b & !0x20,
                                1 => b | 0x80,
                                _ => *b,
                            })
                            .collect()
                    }
                    _ => text(src, 16),
                };
                teams.push(t.clone());
                t
            } else {
                src.pick(&teams).clone()
            };
            c.pairs.push((b"team".to_vec(), c.team.clone()));
        }
        for i in 0..2 {
            let (v, s) = color_value(src);
            c.color[i] = v;
            if let Some(s) = s {
                let k: &[u8] = if i == 0 { b"topcolor" } else { b"bottomcolor" };
                c.pairs.push((k.to_vec(), s));
            }
        }
        if src.chance(1, o.spectators) {
            c.spectator = true;
            c.pairs.push((b"*spectator".to_vec(), flag_value(src, true)));
        } else if src.chance(1, 8) {
            c.pairs.push((b"*spectator".to_vec(), flag_value(src, false)));
        }
        if src.chance(1, o.bots) {
            c.bot = true;
            c.pairs.push((b"*bot".to_vec(), flag_value(src, true)));
        } else if src.chance(1, 8) {
            c.pairs.push((b"*bot".to_vec(), flag_value(src, false)));
        }
        if src.chance(1, 4) {
            let v = text(src, 15);
            c.auth = Some(v.clone());
            c.pairs.push((b"*auth".to_vec(), v));
        }
        if src.chance(1, 4) {
            let v = match src.draw(3) {
                0 => b"se".to_vec(),
                1 => b"none".to_vec(),
                _ => text(src, 4),
            };
            c.cc = Some(v.clone());
            c.pairs.push((b"*flag".to_vec(), v));
        }
        for (k, special) in [
            ("*client", "ezQuake 7085"),
            ("noaim", "1"),
            ("rate", "25000"),
            ("chat", "2"),
            ("*z_ext", "511"),
            ("w_switch", "8"),
            ("skin", "base"),
            ("spectator", "1"),
            ("bot", "1"),
            ("Name", "decoy"),
            ("*name", "decoy"),
            ("*team", "decoy"),
        ] {
            if src.chance(1, 6) {
                let v = if src.chance(1, 2) {
                    text(src, 12)
                } else {
                    special.as_bytes().to_vec()
                };
                c.pairs.push((k.as_bytes().to_vec(), v));
            }
        }
        if bulky && src.chance(7, 8) {
            for i in 0..6 {
                let left = 240usize.saturating_sub(c.userinfo().len());
                if left < 12 {
                    break;
                }
                let k = format!("info{i}").into_bytes();
                c.pairs.push((k, vec![b'a' + src.draw(26) as u8; (left - 8).min(60)]));
            }
        }
        let mut pairs = std::mem::take(&mut c.pairs);
        src.shuffle(&mut pairs);
        c.pairs = pairs;
        // stay within what a server sends
        while c.userinfo().len() > 240 {
            let keep: &[&[u8]] = &[
                b"name",
                b"team",
                b"topcolor",
                b"bottomcolor",
                b"*spectator",
                b"*bot",
                b"*auth",
                b"*flag",
            ];
            let i = c.pairs.iter().rposition(|(k, _)| !keep.contains(&k.as_slice()));
            match i {
                Some(i) => {
                    c.pairs.remove(i);
                }
                None => break,
            }
        }
        if o.long && src.chance(1, 6) {
            // up to the last byte
            let want = src.size(236, 256);
            let have = c.userinfo().len();
            if have + 8 <= want {
                let at = src.size(0, c.pairs.len());
                let v = vec![b'a' + src.draw(26) as u8; want - have - 7];
                c.pairs.insert(at, (b"info9".to_vec(), v));
            }
        }
        cs.push(c);
    }
    cs
}

// ---------------------------------------------------------------- events

#[derive(Clone, Debug, PartialEq)]
pub enum Sem {
    None,
    /// frag changes that the message announces
    Frag(Vec<u8>, i32),
    AnonTk(Vec<u8>),
    Flag(Vec<u8>, usize),
}

#[derive(Clone, Debug)]
pub enum Msg {
    Print { id: u8, text: Vec<u8>, sem: Sem },
    Frags { n: u8, v: i16 },
    Ping { n: u8, ping: u16, pl: u8 },
    /// any other message
    Raw(Vec<u8>),
}

impl Msg {
    pub fn print(id: u8, text: Vec<u8>) -> Msg {
        Msg::Print {
            id,
            text,
            sem: Sem::None,
        }
    }
    pub fn put(&self, out: &mut Vec<u8>) {
        match self {
            Msg::Print { id, text, .. } => {
                out.extend_from_slice(&[8, *id]);
                out.extend_from_slice(text);
                out.push(0);
            }
            Msg::Frags { n, v } => {
                out.extend_from_slice(&[14, *n]);
                out.extend_from_slice(&v.to_le_bytes());
            }
            Msg::Ping { n, ping, pl } => {
                out.extend_from_slice(&[36, *n]);
                out.extend_from_slice(&ping.to_le_bytes());
                out.extend_from_slice(&[53, *n, *pl]);
            }
            Msg::Raw(b) => out.extend_from_slice(b),
        }
    }
}

pub const MATCH_OVER: u8 = 1;
pub const STANDBY: u8 = 2;
pub const MATCHDATE: u8 = 4;

#[derive(Clone, Debug)]
pub struct Frame {
    pub dur: u8,
    pub kind: Kind,
    pub msgs: Vec<Msg>,
    /// body of set and hidden frames
    pub raw: Vec<u8>,
    /// duration markers in this frame
    pub marks: u8,
    /// must stay directly behind the frame before (blocks, spawn block, team kill window)
    pub glued: bool,
}

impl Frame {
    pub fn new(dur: u8, kind: Kind, msgs: Vec<Msg>) -> Frame {
        Frame {
            dur,
            kind,
            msgs,
            raw: vec![],
            marks: 0,
            glued: false,
        }
    }
    pub fn raw(dur: u8, kind: Kind, raw: Vec<u8>) -> Frame {
        Frame {
            dur,
            kind,
            msgs: vec![],
            raw,
            marks: 0,
            glued: false,
        }
    }
    pub fn body(&self) -> Vec<u8> {
        let mut b = self.raw.clone();
        for m in &self.msgs {
            m.put(&mut b);
        }
        b
    }
    /// The messages a client would read from this frame.
    pub fn messages(&self) -> &[Msg] {
        if self.kind.carries_messages() {
            &self.msgs
        } else {
            &[]
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Demo {
    pub frames: Vec<Frame>,
    pub roster: Vec<Client>,
    /// index of the frame after the spawn block
    pub body_from: usize,
}

impl Demo {
    pub fn encode(&self) -> (Vec<u8>, Vec<usize>) {
        let mut out = vec![];
        let mut offsets = vec![];
        for f in &self.frames {
            offsets.push(out.len());
            put_frame(&mut out, f.dur, &f.kind, &f.body());
        }
        (out, offsets)
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.encode().0
    }
}

// ---------------------------------------------------------------- expected results

pub fn model_prints(frames: &[Frame]) -> Vec<(String, Vec<u8>)> {
    let mut r: Vec<(String, Vec<u8>)> = vec![];
    for f in frames {
        for m in f.messages() {
            let Msg::Print { id, text, .. } = m else { break };
            if text.is_empty() {
                continue;
            }
            let p = (crate::wire::level(*id).to_string(), text.clone());
            if r.last() != Some(&p) {
                r.push(p);
            }
        }
    }
    r
}

pub fn opening(f: &Frame) -> impl Iterator<Item = &Msg> {
    f.messages().iter().take_while(|m| matches!(m, Msg::Print { .. }))
}

pub fn model_frags(frames: &[Frame], roster: &[Client]) -> BTreeMap<String, i32> {
    let mut r: BTreeMap<String, i32> = BTreeMap::new();
    for (i, f) in frames.iter().enumerate() {
        for m in opening(f) {
            let Msg::Print { id: 1, sem, .. } = m else { continue };
            match sem {
                Sem::Frag(who, n) => *r.entry(uni(who)).or_default() += n,
                Sem::AnonTk(victim) => {
                    if let Some(k) = anon_killer(frames, i, victim, roster) {
                        *r.entry(uni(&k)).or_default() -= 1;
                    }
                }
                _ => {}
            }
        }
    }
    r
}

/// Who is charged for an anonymous team kill announced in frame `at`.
pub fn anon_killer(frames: &[Frame], at: usize, victim: &[u8], roster: &[Client]) -> Option<Vec<u8>> {
    let team = &roster.iter().find(|c| c.name == victim)?.team;
    let mut updates = vec![];
    let window = frames[at..].iter().filter(|f| !f.messages().is_empty()).take(3);
    for (k, f) in window.enumerate() {
        let skip = if k == 0 { opening(f).count() } else { 0 };
        for m in &f.messages()[skip..] {
            let Msg::Frags { n, .. } = m else { break };
            updates.push(*n);
        }
    }
    updates
        .iter()
        .filter_map(|n| roster.iter().find(|c| c.slot == *n))
        .find(|c| c.team == *team && c.name != victim)
        .map(|c| c.name.clone())
}

pub fn model_pings(frames: &[Frame]) -> Option<BTreeMap<u8, u32>> {
    let mut sums: BTreeMap<u8, (u64, u64)> = BTreeMap::new();
    let mut seen = 0;
    for f in frames {
        let mut any = false;
        for m in f.messages() {
            let Msg::Ping { n, ping, .. } = m else { break };
            any = true;
            let e = sums.entry(*n).or_default();
            e.0 += u64::from(*ping);
            e.1 += 1;
        }
        if any {
            seen += 1;
            if seen == 8 {
                break;
            }
        }
    }
    if sums.is_empty() {
        return None;
    }
    Some(sums.iter().map(|(k, (s, n))| (*k, (s / n) as u32)).collect())
}

pub fn model_flags(frames: &[Frame]) -> BTreeMap<String, [u32; 7]> {
    let mut r: BTreeMap<String, [u32; 7]> = BTreeMap::new();
    for f in frames {
        for m in f.messages() {
            // the sem sits on the print that completes the message
            if let Msg::Print {
                id: 2,
                sem: Sem::Flag(who, k),
                ..
            } = m
            {
                r.entry(uni(who)).or_default()[*k] += 1;
            }
        }
    }
    r
}

/// Milliseconds up to and including frame `last`, or of everything.
pub fn model_ms(frames: &[Frame], last: Option<usize>) -> u64 {
    let n = last.map_or(frames.len(), |l| l + 1);
    frames[..n].iter().map(|f| u64::from(f.dur)).sum()
}

pub fn last_mark(frames: &[Frame], mark: u8) -> Option<usize> {
    frames.iter().rposition(|f| f.marks & mark != 0)
}

pub fn first_mark(frames: &[Frame], mark: u8) -> Option<usize> {
    frames.iter().position(|f| f.marks & mark != 0)
}

// ---------------------------------------------------------------- pieces of traffic

/// What a score update may say.
pub fn score(src: &mut Src) -> i16 {
    match src.weighted(&[6, 2]) {
        0 => src.range(-20, 60) as i16,
        _ => src.edgy(i16::MIN as i64, i16::MAX as i64, &[99, 100, 101, 127, 128, 255, 256, 999, 1000]) as i16,
    }
}

pub fn dur(src: &mut Src) -> u8 {
    match src.weighted(&[4, 3, 2, 1]) {
        0 => 0,
        1 => 13,
        2 => src.draw(40) as u8,
        _ => src.byte(),
    }
}

pub fn target(src: &mut Src) -> Kind {
    match src.weighted(&[10, 2, 2, 2, 1]) {
        0 => Kind::All,
        1 => Kind::Stats(src.draw(32) as u8),
        2 => Kind::Single(src.draw(32) as u8),
        3 => {
            let mut m = match src.weighted(&[3, 2]) {
                0 => [src.byte(), src.byte(), src.byte(), src.byte()],
                // a single client
                _ => [0; 4],
            };
            if m == [0; 4] {
                m[src.draw(4) as usize] = 1 << src.draw(8);
            }
            Kind::Multi(m)
        }
        _ => Kind::Read,
    }
}

/// One message that means nothing to the parser; its first byte is not that of a print, a score
/// update or a ping update.
pub fn noise_msg(src: &mut Src) -> Vec<u8> {
    let mut b = vec![];
    match src.draw(19) {
        0 => b = vec![1],                                            // nop
        1 => { b.push(3); b.extend(src.bytes(2)); }                   // update stat
        2 => { b.push(38); b.extend(src.bytes(5)); }                  // update stat long
        3 => { b.push(42); b.extend(src.bytes(9)); }                  // player info
        4 => { b.push(48); b.extend(src.bytes(7)); }                  // delta packet entities
        5 => { b.push(6); let n = src.size(3, 10); b.extend(src.bytes(n)); } // sound
        6 => { b.push(10); b.extend(src.bytes(4)); }                  // set angle
        7 => { b.push(23); b.extend(src.bytes(7)); }                  // temp entity
        8 => { b.push(26); b.extend(safe_text(src)); b.push(0); }     // center print
        9 => { b.push(9); b.extend(b"play misc/talk.wav\n\0"); }      // stufftext
        10 => { b.push(39); b.extend(src.bytes(2)); }                 // muzzle flash
        11 => { b.push(19); b.extend(src.bytes(8)); }                 // damage
        12 => { b.push(12); b.push(src.byte()); b.extend(b"mmamma\0"); } // light style
        13 => { b.push(54); b.push(2); b.extend(src.bytes(14)); }     // nails
        14 => { b.push(37); b.push(src.byte()); b.extend(src.bytes(4)); } // enter time
        15 => { b.push(53); b.extend(src.bytes(2)); }                 // packet loss
        16 => { b.push(51); b.push(src.byte()); b.extend(b"chat\0"); b.extend(b"1\0"); } // set info
        17 => { b.push(52); b.extend(b"serverinfo-key\0some value\0"); } // server info change
        _ => {
            let mut t = src.byte();
            if matches!(t, 8 | 14 | 36) {
                t = 47;
            }
            b.push(t);
            let n = src.size(0, 40);
            b.extend(src.bytes(n));
        }
    }
    b
}

/// Message text without any meaning to the parser.
pub fn safe_text(src: &mut Src) -> Vec<u8> {
    let mut t = text(src, 40);
    if src.chance(1, 2) {
        t.push(b'\n');
    }
    t
}

pub fn hidden_block(src: &mut Src) -> Vec<u8> {
    // never statistics (type 3)
    let ty = *src.pick(&[7u16, 0, 1, 2, 8, 9, 10, 5, 6]);
    let n = match src.weighted(&[3, 4, 1]) {
        0 => src.size(0, 20),
        // lengths whose first byte looks like a message type
        1 => *src.pick(&[8usize, 36, 14, 264, 292, 270]),
        _ => src.size(200, 400),
    };
    let mut b = (n as u32).to_le_bytes().to_vec();
    b.extend_from_slice(&ty.to_le_bytes());
    b.extend(src.bytes(n));
    b
}

/// A frame without any message of interest.
pub fn noise_frame(src: &mut Src) -> Frame {
    let d = dur(src);
    match src.weighted(&[8, 3, 2, 2, 2]) {
        0 => {
            let k = target(src);
            let mut msgs = vec![];
            while src.more(msgs.len(), 1, 4, 2) {
                msgs.push(Msg::Raw(noise_msg(src)));
            }
            Frame::new(d, k, msgs)
        }
        1 => {
            let mut raw = hidden_block(src);
            while src.chance(1, 4) && raw.len() < 2000 {
                raw.extend(hidden_block(src));
            }
            Frame::raw(d, Kind::Hidden, raw)
        }
        2 => {
            // sequence numbers; their first byte may look like a message type
            let mut raw = src.bytes(8);
            if src.chance(1, 2) {
                raw[0] = *src.pick(&[8, 36, 14]);
            }
            Frame::raw(d, Kind::Set, raw)
        }
        3 => {
            let k = target(src);
            Frame::new(d, k, vec![])
        }
        _ => {
            let hi = (src.draw(32) as u8) << 3;
            Frame::raw(d, Kind::Bare(*src.pick(&[7u8, 0]) | hi), vec![])
        }
    }
}

/// Trailing messages of a frame: they do not open it, whatever they are.
pub fn tail(src: &mut Src, decoys: &[Msg]) -> Vec<Msg> {
    let mut v = vec![];
    if src.chance(1, 2) {
        return v;
    }
    v.push(Msg::Raw(noise_msg(src)));
    while src.more(v.len(), 1, 4, 2) {
        if !decoys.is_empty() && src.chance(1, 2) {
            v.push(src.pick(decoys).clone());
        } else {
            v.push(Msg::Raw(noise_msg(src)));
        }
    }
    v
}

// ---------------------------------------------------------------- messages

pub fn with_newline(mut t: Vec<u8>) -> Vec<u8> {
    t.push(b'\n');
    t
}

/// A medium-level message of any obituary kind except anonymous team kills.
pub fn obituary(src: &mut Src, a: &[u8], b: &[u8]) -> (Vec<u8>, Sem) {
    let cat = |parts: &[&[u8]]| parts.concat();
    let (text, who, n): (Vec<u8>, &[u8], i32) = match src.weighted(&[4, 2, 2, 1, 2, 2]) {
        0 => {
            let (p, s) = *src.pick(VICTIM_FIRST);
            (cat(&[a, p.as_bytes(), b, s.as_bytes()]), b, 1)
        }
        1 => {
            let (p, s) = *src.pick(KILLER_FIRST);
            (cat(&[a, p.as_bytes(), b, s.as_bytes()]), a, 1)
        }
        2 => (cat(&[a, src.pick(DEATHS).as_bytes()]), a, -1),
        3 => (cat(&[a, SUICIDE.as_bytes()]), a, -2),
        4 => (cat(&[a, src.pick(SUICIDES_BY_WEAPON).as_bytes()]), a, -1),
        _ => (cat(&[a, src.pick(TEAMKILLS).as_bytes()]), a, -1),
    };
    // the line break is not what makes it an obituary
    let text = if src.chance(1, 10) { text } else { with_newline(text) };
    (text, Sem::Frag(who.to_vec(), n))
}

pub fn obit_msg(src: &mut Src, names: &[Vec<u8>]) -> Msg {
    let a = src.pick(names).clone();
    let b = src.pick(names).clone();
    let (text, sem) = obituary(src, &a, &b);
    Msg::Print { id: 1, text, sem }
}

/// Console text that is no obituary.
pub fn chatter(src: &mut Src, names: &[Vec<u8>]) -> Msg {
    let id = *src.pick(&[3u8, 2, 0, 1, 4, 255]);
    let mut t = vec![];
    match src.weighted(&[3, 2, 2, 1]) {
        0 => {
            t.extend_from_slice(src.pick(names));
            t.extend_from_slice(b": ");
            t.extend(text(src, 30));
            t.push(b'\n');
        }
        1 => t = safe_text(src),
        2 => {
            // looks like an obituary, but is not at medium level
            let id = *src.pick(&[3u8, 2, 0, 4]);
            let a = src.pick(names).clone();
            let b = src.pick(names).clone();
            let (text, sem) = obituary(src, &a, &b);
            return Msg::Print { id, text, sem };
        }
        _ => {}
    }
    Msg::print(id, t)
}

/// The prints of one flag message: whole, or the name first and the rest behind it.
pub fn flag_msgs(src: &mut Src, names: &[Vec<u8>]) -> Vec<Msg> {
    let mut who = src.pick(names).clone();
    if src.chance(1, 24) {
        // much longer than any name
        while who.len() < 70 {
            who.extend_from_within(..);
        }
        let n = src.size(32, 140);
        who.truncate(n);
    }
    let (k, t) = *src.pick(FLAGS);
    let t = latin1(t);
    let sem = Sem::Flag(who.clone(), k);
    if src.chance(1, 2) {
        let mut v = vec![Msg::print(2, who)];
        while src.chance(1, 6) {
            // of no concern
            v.push(match src.draw(5) {
                0 => Msg::print(2, vec![]),
                1 => Msg::print(*src.pick(&[0u8, 1, 3]), b"x\n".to_vec()),
                2 => Msg::print(*src.pick(&[0u8, 1, 3]), t.clone()),
                3 => Msg::print(*src.pick(&[0u8, 1, 3]), b"".to_vec()),
                _ => Msg::Raw(vec![1]),
            });
        }
        v.push(Msg::Print {
            id: 2,
            text: t,
            sem,
        });
        v
    } else {
        vec![Msg::Print {
            id: 2,
            text: [who, t].concat(),
            sem,
        }]
    }
}

// ---------------------------------------------------------------- opening of a recording

pub type Pairs = Vec<(Vec<u8>, Vec<u8>)>;

pub fn infostring(pairs: &Pairs) -> Vec<u8> {
    let mut s = vec![];
    for (k, v) in pairs {
        s.push(b'\\');
        s.extend_from_slice(k);
        s.push(b'\\');
        s.extend_from_slice(v);
    }
    s
}

/// Server data and settings. `pad` bytes of messages come before the settings string.
pub fn head_frames(src: &mut Src, info: Option<&[u8]>) -> Vec<Frame> {
    let mut b = vec![11, 28, 0, 0, 0];
    b.extend(src.draw(1 << 30).to_le_bytes()[..4].to_vec());
    b.extend_from_slice(b"qw\0");
    b.extend(0f32.to_le_bytes());
    b.extend_from_slice(b"The Bad Place\0");
    for _ in 0..10 {
        b.extend(800f32.to_le_bytes());
    }
    let mut msgs = vec![Msg::Raw(b)];
    if let Some(info) = info {
        let mut s = vec![9];
        s.extend_from_slice(b"fullserverinfo \"");
        s.extend_from_slice(info);
        s.extend_from_slice(b"\"\n\0");
        msgs.push(Msg::Raw(s));
    }
    let mut frames = vec![];
    frames.push(Frame::new(0, Kind::Read, msgs));
    if src.chance(1, 2) {
        frames[0].kind = Kind::All;
    }
    while src.more(frames.len(), 1, 4, 2) {
        let mut l = vec![45, 0];
        l.extend_from_slice(b"maps/dm3.bsp\0progs/player.mdl\0");
        l.extend(src.bytes(8).iter().map(|b| b | 1));
        l.extend_from_slice(b"\0\0\0");
        frames.push(Frame::new(0, Kind::All, vec![Msg::Raw(l)]));
    }
    frames
}

/// The spawn block: roster in slot order with the unused slots in between. Followed by filler, so
/// that later user info is out of its reach.
pub fn spawn_frames(src: &mut Src, roster: &[Client]) -> Vec<Frame> {
    let mut frames = vec![];
    let mut s = vec![9];
    s.extend_from_slice(format!("cmd spawn {} 0\n", src.draw(1 << 20)).as_bytes());
    s.push(0);
    frames.push(Frame::new(0, Kind::All, vec![Msg::Raw(s)]));
    // the server fills its frames
    let per_frame = match src.draw(3) {
        0 => src.size(4, 32),
        _ => 32,
    };
    let mention_empty = src.draw(3);
    let full = src.chance(7, 8);
    let mut body: Vec<u8> = vec![];
    let mut in_frame = 0;
    let mut next = 0u8;
    let last = roster.last().map_or(0, |c| c.slot);
    let last = if mention_empty == 1 { 31 } else { last };
    for slot in 0..=last {
        let c = roster.get(next as usize).filter(|c| c.slot == slot);
        let mut one = vec![];
        if full {
            one.extend_from_slice(&[14, slot]);
            one.extend_from_slice(&(src.draw(60) as i16 - 10).to_le_bytes());
            one.extend_from_slice(&[36, slot]);
            one.extend_from_slice(&(src.draw(300) as u16).to_le_bytes());
            one.extend_from_slice(&[53, slot, src.draw(5) as u8]);
            one.extend_from_slice(&[37, slot]);
            one.extend_from_slice(&(src.draw(1000) as f32).to_le_bytes());
        }
        one.extend_from_slice(&[40, slot]);
        match c {
            Some(c) => {
                one.extend_from_slice(&c.uid.to_le_bytes());
                let ui = c.userinfo();
                one.extend_from_slice(&ui);
                one.push(0);
                next += 1;
            }
            None => {
                if mention_empty == 0 {
                    continue;
                }
                one.extend_from_slice(&[0, 0, 0, 0]);
                one.push(0);
            }
        }
        body.extend_from_slice(&one);
        in_frame += 1;
        if in_frame >= per_frame {
            let mut f = Frame::new(0, Kind::All, vec![Msg::Raw(std::mem::take(&mut body))]);
            f.glued = true;
            frames.push(f);
            in_frame = 0;
        }
    }
    if !body.is_empty() {
        let mut f = Frame::new(0, Kind::All, vec![Msg::Raw(body)]);
        f.glued = true;
        frames.push(f);
    }
    frames
}

/// More than 512 bytes without user info.
pub fn filler(src: &mut Src) -> Vec<Frame> {
    let mut frames = vec![];
    let mut n = 0;
    while n <= 1300 {
        let mut b = vec![20];
        let k = src.size(1, 3) * 90;
        b.resize(k, 0x11);
        n += k;
        let mut f = Frame::new(0, Kind::All, vec![Msg::Raw(b)]);
        f.glued = true;
        frames.push(f);
    }
    frames
}

/// A later change of a client's user info: not part of the roster.
pub fn userinfo_update(src: &mut Src) -> Frame {
    let mut b = vec![40, src.draw(32) as u8, 9, 0, 0, 0];
    b.extend_from_slice(b"\\team\\late\\name\\");
    b.extend(text(src, 15));
    b.push(0);
    Frame::new(dur(src), Kind::All, vec![Msg::Raw(b)])
}

pub fn end_frame(src: &mut Src) -> Frame {
    let mut msgs = vec![];
    if src.chance(1, 3) {
        msgs.push(Msg::print(2, b"bye\n".to_vec()));
    }
    if src.chance(1, 6) {
        msgs.push(Msg::Raw(vec![0]));
    }
    msgs.push(Msg::Raw(b"\x02EndOfDemo\0".to_vec()));
    Frame::new(0, Kind::All, msgs)
}

// ---------------------------------------------------------------- whole recordings

#[derive(Clone)]
pub struct Mix {
    pub noise: u64,
    pub obits: u64,
    pub anon: u64,
    pub pings: u64,
    pub flags: u64,
    pub chat: u64,
    pub updates: u64,
    pub frames: usize,
}

impl Default for Mix {
    fn default() -> Self {
        Mix {
            noise: 6,
            obits: 4,
            anon: 1,
            pings: 2,
            flags: 2,
            chat: 3,
            updates: 1,
            frames: 30,
        }
    }
}

pub fn names_of(src: &mut Src, roster: &[Client]) -> Vec<Vec<u8>> {
    let mut names: Vec<Vec<u8>> = roster.iter().map(|c| c.name.clone()).collect();
    // players who joined later
    while names.is_empty() || (names.len() < 40 && src.chance(1, 4)) {
        let n = fresh(src, 31, &names);
        names.push(n);
    }
    names
}

pub fn ping_frame(src: &mut Src, roster: &[Client]) -> Frame {
    let mut msgs = vec![];
    let style = src.draw(4);
    let mut slots: Vec<u8> = if roster.is_empty() || style == 3 {
        let n = src.size(1, 6);
        (0..n).map(|_| src.draw(32) as u8).collect()
    } else {
        roster.iter().map(|c| c.slot).collect()
    };
    if style == 2 {
        let drop = src.draw(slots.len() as u64) as usize;
        slots.remove(drop);
        if slots.is_empty() {
            slots.push(src.byte());
        }
    }
    for n in slots {
        let ping = src.edgy(0, 65535, &[8, 36, 53, 255, 256, 666, 8191, 8192, 32768, 0x2408]) as u16;
        msgs.push(Msg::Ping {
            n,
            ping,
            pl: src.edgy(0, 255, &[8, 36, 53]) as u8,
        });
    }
    let decoys = [Msg::Ping {
        n: 0,
        ping: 60000,
        pl: 0,
    }];
    let t = tail(src, &decoys);
    msgs.extend(t);
    Frame::new(dur(src), Kind::All, msgs)
}

/// The frames of one thing that happens.
pub fn event(src: &mut Src, mix: &Mix, roster: &[Client], names: &[Vec<u8>]) -> Vec<Frame> {
    match src.weighted(&[mix.noise, mix.chat, mix.obits, mix.pings, mix.flags, mix.anon, mix.updates]) {
        0 => vec![noise_frame(src)],
        1 | 2 => {
            let mut msgs = vec![];
            while src.more(msgs.len(), 1, 6, 2) {
                let w = src.weighted(&[mix.chat, mix.obits]);
                if src.chance(1, 12) {
                    // the same message again
                    if let Some(m) = msgs.last().cloned() {
                        msgs.push(m);
                        continue;
                    }
                }
                msgs.push(if w == 0 {
                    chatter(src, names)
                } else {
                    obit_msg(src, names)
                });
            }
            if src.chance(1, 3) {
                let n = src.draw(32) as u8;
                msgs.push(Msg::Frags {
                    n,
                    v: score(src),
                });
            }
            let decoys: Vec<Msg> = if mix.obits + mix.chat > 0 {
                vec![obit_msg(src, names), chatter(src, names)]
            } else {
                vec![]
            };
            let t = tail(src, &decoys);
            msgs.extend(t);
            let (d, k) = (dur(src), target(src));
            let mut fs = vec![Frame::new(d, k, msgs)];
            if src.chance(1, 10) {
                let f = fs[0].clone();
                fs.push(f);
            }
            fs
        }
        3 => vec![ping_frame(src, roster)],
        4 => {
            let mut msgs = vec![];
            if src.chance(1, 5) {
                // other messages first; no byte of them is that of a print
                let mut b = noise_msg(src);
                for c in &mut b {
                    if *c == 8 {
                        *c = 9;
                    }
                }
                msgs.push(Msg::Raw(b));
            }
            if src.chance(1, 30) {
                // a lot of chat
                for _ in 0..src.size(10, 150) {
                    msgs.push(Msg::print(3, with_newline(text(src, 40))));
                }
            }
            let base = msgs.len();
            while src.more(msgs.len() - base, 1, 10, 3) {
                if src.chance(1, 8) {
                    msgs.push(Msg::print(*src.pick(&[0u8, 1, 3]), text(src, 10)));
                } else if src.chance(1, 10) {
                    // the wrong level
                    let mut ms = flag_msgs(src, names);
                    let lvl = *src.pick(&[0u8, 1, 3, 4]);
                    for m in &mut ms {
                        if let Msg::Print { id, .. } = m {
                            *id = lvl;
                        }
                    }
                    msgs.extend(ms);
                } else {
                    msgs.extend(flag_msgs(src, names));
                }
            }
            if src.chance(1, 2) {
                msgs.push(Msg::Raw(noise_msg(src)));
            }
            let (d, k) = (dur(src), target(src));
            vec![Frame::new(d, k, msgs)]
        }
        5 => anon_tk(src, roster, names),
        _ => vec![userinfo_update(src)],
    }
}

/// An anonymous team kill and what surrounds it: score updates of the killer, of opponents, of the
/// victim or of nobody, in the same frame or in later ones.
pub fn anon_tk(src: &mut Src, roster: &[Client], names: &[Vec<u8>]) -> Vec<Frame> {
    // a client without a team has no teammates
    let no_team = |n: &Vec<u8>| roster.iter().any(|c| c.name == *n && c.team.is_empty());
    let pool: Vec<&Vec<u8>> = names.iter().filter(|n| !no_team(n)).collect();
    let victim = match pool.is_empty() {
        true => fresh(src, 31, names),
        false => (*src.pick(&pool)).clone(),
    };
    let text = with_newline([victim.as_slice(), src.pick(ANON_TEAMKILLS).as_bytes()].concat());
    let mut msgs = vec![];
    while src.chance(1, 4) {
        msgs.push(chatter(src, names));
    }
    msgs.push(Msg::Print {
        id: 1,
        text,
        sem: Sem::AnonTk(victim.clone()),
    });
    while src.chance(1, 5) {
        msgs.push(chatter(src, names));
    }
    // several at once, of a teammate or the same one
    while !pool.is_empty() && src.chance(1, 5) {
        let other = (*src.pick(&pool)).clone();
        msgs.push(Msg::Print {
            id: 1,
            text: with_newline([other.as_slice(), src.pick(ANON_TEAMKILLS).as_bytes()].concat()),
            sem: Sem::AnonTk(other),
        });
    }
    // lots of others' updates before that of the killer
    let crowd = src.chance(1, 12);
    let mate = |src: &mut Src| -> u8 {
        let team = roster.iter().find(|c| c.name == victim).map(|c| c.team.clone());
        let mates: Vec<u8> = roster
            .iter()
            .filter(|c| Some(&c.team) == team.as_ref() && c.name != victim)
            .map(|c| c.slot)
            .collect();
        let others: Vec<u8> = roster
            .iter()
            .filter(|c| Some(&c.team) != team.as_ref())
            .map(|c| c.slot)
            .collect();
        let own: Vec<u8> = roster.iter().filter(|c| c.name == victim).map(|c| c.slot).collect();
        let pool = match src.weighted(&if crowd { [1, 12, 3, 4] } else { [5, 3, 2, 1] }) {
            0 => mates,
            1 => others,
            2 => own,
            _ => vec![],
        };
        let n = if pool.is_empty() {
            src.draw(32) as u8
        } else {
            *src.pick(&pool)
        };
        // spectators have no score
        if roster.iter().any(|c| c.slot == n && c.spectator) {
            200
        } else {
            n
        }
    };
    let updates = |src: &mut Src| -> Vec<Msg> {
        let mut v = vec![];
        let n = match src.weighted(&[24, 30, 12, 6, 3]) {
            4 => src.size(4, 40),
            n if crowd => 8 + 4 * n,
            n => n,
        };
        for _ in 0..n {
            let n = mate(src);
            v.push(Msg::Frags {
                n,
                v: score(src),
            });
        }
        v
    };
    let place = src.weighted(&[4, 3, 3, 2, 2]);
    let mut frames = vec![];
    let quiet = |src: &mut Src| -> Vec<Msg> {
        // does not open with a score update
        let mut v = vec![];
        if src.chance(1, 3) {
            v.push(Msg::print(*src.pick(&[0u8, 2, 3]), b"hm\n".to_vec()));
            if src.chance(1, 2) {
                // follows a print in a later frame: not at its opening
                v.push(Msg::Frags {
                    n: mate(src),
                    v: -1,
                });
            }
        } else {
            v.push(Msg::Raw(noise_msg(src)));
        }
        v
    };
    for i in 0..5usize {
        let mut ms = if i == 0 { std::mem::take(&mut msgs) } else { vec![] };
        if i == place {
            ms.extend(updates(src));
        } else if i > 0 {
            ms.extend(quiet(src));
        }
        if src.chance(1, 3) {
            ms.push(Msg::Raw(noise_msg(src)));
        }
        if i > 0 && ms.is_empty() {
            ms.push(Msg::Raw(vec![1]));
        }
        let (d, k) = (dur(src), target(src));
        let mut f = Frame::new(d, k, ms);
        f.glued = i > 0;
        frames.push(f);
        // frames without messages do not count
        while src.chance(1, 5) {
            let mut f = match src.draw(4) {
                0 => Frame::new(dur(src), Kind::All, vec![]),
                1 => Frame::raw(dur(src), Kind::Hidden, hidden_block(src)),
                2 => Frame::raw(0, Kind::Set, src.bytes(8)),
                _ => Frame::raw(dur(src), Kind::Bare(7), vec![]),
            };
            f.glued = true;
            frames.push(f);
        }
        if i >= 1 && i >= place && src.chance(1, 2) {
            break;
        }
    }
    // whatever comes next is outside of the window
    while frames.iter().filter(|f| !f.messages().is_empty()).count() < 3 {
        let mut f = Frame::new(dur(src), Kind::All, vec![Msg::Raw(vec![1])]);
        f.glued = true;
        frames.push(f);
    }
    frames
}

pub fn timeline(src: &mut Src, mix: &Mix, roster: &[Client]) -> Vec<Frame> {
    let names = names_of(src, roster);
    let mut frames = vec![];
    let mut n = 0;
    let target = match src.weighted(&[3, 3, 1]) {
        0 => mix.frames / 4 + 1,
        1 => mix.frames,
        _ => mix.frames * 4,
    };
    while src.more(n, 0, 10 * target, target) {
        frames.extend(event(src, mix, roster, &names));
        n += 1;
    }
    frames
}

/// Head, spawn block, timeline and usually an end.
pub fn demo_with(src: &mut Src, info: Option<&[u8]>, roster: Vec<Client>, mix: &Mix) -> Demo {
    let mut frames = head_frames(src, info);
    frames.extend(spawn_frames(src, &roster));
    frames.extend(filler(src));
    let body_from = frames.len();
    frames.extend(timeline(src, mix, &roster));
    if src.chance(3, 4) {
        frames.push(end_frame(src));
    }
    Demo {
        frames,
        roster,
        body_from,
    }
}

/// Usual settings.
pub fn usual_info(src: &mut Src) -> Pairs {
    let mut p: Pairs = vec![];
    let mut put = |k: &str, v: Vec<u8>| p.push((k.as_bytes().to_vec(), v));
    put("maxfps", b"77".to_vec());
    // a colored backslash or quote would end the value
    let host: Vec<u8> = text(src, 20).iter().map(|b| if matches!(b & 0x7f, 0x5c | 0x22) { b'_' } else { *b }).collect();
    put("hostname", host);
    put("deathmatch", b"3".to_vec());
    put("map", b"dm3".to_vec());
    put("serverdemo", b"a_vs_b[dm3].mvd".to_vec());
    put("*gamedir", b"qw".to_vec());
    p
}
