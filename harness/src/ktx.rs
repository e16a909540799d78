//! Statistics documents in the style of KTX, and their transport in numbered blocks.
use crate::engine::Src;
use crate::gen::Frame;
use crate::wire::Kind;

#[derive(Clone, Debug)]
pub struct KPlayer {
    pub name: String,
    pub team: String,
    pub top: i32,
    pub bottom: i32,
    pub ping: i32,
    pub login: String,
    pub frags: i32,
    pub bot: Option<i32>,
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub text: String,
    pub version: u32,
    pub map: String,
    pub hostname: String,
    pub ip: String,
    pub port: u32,
    pub mode: String,
    pub tl: u32,
    pub dm: u32,
    pub tp: Option<u32>,
    pub demo: String,
    pub duration: Option<String>,
    pub teams: Vec<String>,
    pub players: Vec<KPlayer>,
}

pub fn quoted(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const NAMES: &[&str] = &[
    "HoLy", "dago", "Milton", "mushi", "conan", "muttan", "/ bro", "[ServeMe]", "a", "b", "B", "A", "zero", "Zero",
    "nig...áøå", "KabÏÏm", "•axe", "日本", "\u{1F980}", "quote\"d", "back\\slash", "{\"x\": 1}", "tab\there", "é", "É",
    "ß", "İ", "name, with, commas", "}", "\"bot\"", "\"duration\": 5,",
];

pub fn label(src: &mut Src) -> String {
    match src.weighted(&[6, 3, 1]) {
        0 => src.pick(NAMES).to_string(),
        1 => {
            let mut s = String::new();
            while src.more(s.len(), 1, 30, 6) {
                s.push(*src.pick(&[
                    'a', 'b', 'Z', '0', '9', ' ', '.', '-', '_', 'é', 'ø', '•', '{', '}', '[', ']', ',', ':', '\'',
                    '"', '\\', '\0', '\n', '\r', '\u{1}', '\u{7f}', '\u{2212}', '語',
                ]));
            }
            s
        }
        _ => {
            // latin-1 form of Quake characters
            let t = crate::gen::text(src, 31);
            crate::wire::uni(&t)
        }
    }
}

#[derive(Clone, Copy)]
pub struct DocOpts {
    pub players: usize,
    pub bots: u64,
    /// pings and colors outside of what a client can have
    pub wild: bool,
    pub odd_durations: bool,
}

impl Default for DocOpts {
    fn default() -> Self {
        DocOpts {
            players: 16,
            bots: 6,
            wild: false,
            odd_durations: false,
        }
    }
}

pub fn doc(src: &mut Src, o: DocOpts) -> Doc {
    let mut players: Vec<KPlayer> = vec![];
    let mut teams: Vec<String> = vec![];
    while src.more(players.len(), 0, o.players, (o.players + 1) / 2) {
        let name = if !players.is_empty() && src.chance(1, 12) {
            players[src.draw(players.len() as u64) as usize].name.clone()
        } else {
            label(src)
        };
        let team = if teams.is_empty() || src.chance(1, 4) {
            let t = match src.weighted(&[3, 2, 1]) {
                0 => src.pick(&["red", "blue", "RED", "Red", "x", ""]).to_string(),
                1 => label(src),
                _ => String::new(),
            };
            teams.push(t.clone());
            t
        } else {
            src.pick(&teams).clone()
        };
        let color = |src: &mut Src| match src.weighted(&[8, 1]) {
            0 => src.draw(17) as i32,
            _ => src.draw(256) as i32,
        };
        players.push(KPlayer {
            name,
            team,
            top: color(src),
            bottom: color(src),
            ping: src.edgy(0, 999, &[10, 9, 11, 255, 256, 666]) as i32 + *src.pick(&[0, 0, 0, 0, 0, 0, 0, 0, 1000, 65_000, 99_999]),
            login: if src.chance(1, 3) { label(src) } else { String::new() },
            frags: match src.weighted(&[8, 2, 1]) {
                0 => src.range(-10, 60) as i32,
                1 => src.range(-3, 3) as i32,
                _ => *src.pick(&[0, 127, 128, -129, 255, 256, 32767, 32768, 65536, -32769]),
            },
            bot: if src.chance(1, o.bots) { Some(src.draw(21) as i32) } else { None },
        });
        if o.wild {
            let wild = [i32::MIN, i32::MAX, -1, 256, 1 << 30];
            let p = players.last_mut().unwrap();
            for f in [&mut p.top, &mut p.bottom, &mut p.ping, &mut p.frags] {
                if src.chance(1, 3) {
                    *f = *src.pick(&wild);
                }
            }
        }
    }
    let duration = if o.odd_durations {
        match src.weighted(&[6, 1, 2, 3]) {
            0 => Some(src.range(0, 4000).to_string()),
            1 => None,
            2 => Some(src.pick(&["0", "599.5", "1200.25", "1e2", "4294967295", "0.001", "86400"]).to_string()),
            _ => Some(
                src.pick(&[
                    "-1", "-600", "-0.5", "null", "1e400", "\"600\"", "", "NaN", "inf", "-inf", "1e30", "nonsense",
                    "600s", "+-3", "-1e300", "infinity",
                ])
                .to_string(),
            ),
        }
    } else {
        Some(src.range(0, 4000).to_string())
    };
    let mut d = Doc {
        text: String::new(),
        version: 3,
        map: src.pick(&["dm3", "bravado", "e1m2", "povdmm4", "[x]", "ä"]).to_string(),
        hostname: match src.weighted(&[2, 3]) {
            0 => "QUAKE.SE KTX:28501".to_string(),
            _ => label(src),
        },
        ip: match src.weighted(&[3, 2, 1]) {
            0 => format!("{}.{}.{}.{}", src.draw(256), src.draw(256), src.draw(256), src.draw(256)),
            1 => src.pick(&["", "::1", "localhost", "2001:db8::5", "0.0.0.0"]).to_string(),
            _ => label(src),
        },
        port: src.edgy(0, u32::MAX as i64, &[27500, 28501, 65535, 65536, 0]) as u32,
        mode: src.pick(&["duel", "team", "ffa", "ctf", "2on2"]).to_string(),
        tl: src.draw(31) as u32,
        dm: 1 + src.draw(4) as u32,
        tp: if src.chance(1, 2) { Some(src.draw(4) as u32) } else { None },
        demo: "a_vs_b[dm3]20240426-1659.mvd".to_string(),
        duration,
        teams: teams.iter().take(2).cloned().collect(),
        players,
    };
    d.text = render(src, &d);
    d
}

pub fn render(src: &mut Src, d: &Doc) -> String {
    let mut t = format!(
        "{{\"version\": {},\"date\": \"2024-04-26 17:{:02}:29 +0200\",\"map\": {},\"hostname\": {},\"ip\": {},\"port\": {},\"mode\": {},\"tl\": {},\"dm\": {},",
        d.version,
        src.draw(60),
        quoted(&d.map),
        quoted(&d.hostname),
        quoted(&d.ip),
        d.port,
        quoted(&d.mode),
        d.tl,
        d.dm
    );
    if let Some(tp) = d.tp {
        t.push_str(&format!("\"tp\": {tp},"));
    }
    if let Some(x) = &d.duration {
        t.push_str(&format!("\"duration\": {x},"));
    }
    t.push_str(&format!("\"demo\": {},", quoted(&d.demo)));
    if !d.teams.is_empty() && src.chance(1, 2) {
        let ts: Vec<String> = d.teams.iter().map(|t| quoted(t)).collect();
        t.push_str(&format!("\"teams\": [{}],", ts.join(", ")));
    }
    t.push_str("\"players\": [");
    let detail = src.draw(3);
    // a duration of something else, behind that of the match
    let other = d.duration.is_some() && src.chance(1, 8);
    for (i, p) in d.players.iter().enumerate() {
        if i > 0 {
            t.push(',');
        }
        t.push_str(&format!(
            "{{\"top-color\": {},\"bottom-color\": {},\"ping\": {},\"login\": {},\"name\": {},\"team\": {},\"stats\": {{ \"frags\": {}, \"deaths\": {}, \"tk\": 0, \"spawn-frags\": 6, \"kills\": 27, \"suicides\": 2 }}",
            p.top, p.bottom, p.ping, quoted(&p.login), quoted(&p.name), quoted(&p.team), p.frags, 35
        ));
        if detail > 0 {
            t.push_str(",\"dmg\": { \"taken\": 7629, \"given\": 7265, \"team\": 0, \"self\": 1051, \"team-weapons\": 0, \"enemy-weapons\": 6504, \"taken-to-die\": 217 },\"xferRL\": 0,\"xferLG\": 0,\"spree\": { \"max\": 6, \"quad\": 0 },\"control\": 150.075928,\"speed\": { \"max\": 1003.971375, \"avg\": 337.661133 }");
        }
        if detail > 1 {
            t.push_str(",\"weapons\": {\"sg\": {\"acc\": { \"attacks\": 138, \"hits\": 56 },\"deaths\": 0}},\"items\": {\"health_15\": { \"took\": 11 },\"ra\": { \"took\": 15, \"time\": 262 }}");
        }
        if let Some(skill) = p.bot {
            t.push_str(&format!(",\"bot\": {{ \"skill\": {skill}, \"customised\": false }}"));
        }
        if other && (i == 0 || src.chance(1, 4)) {
            t.push_str(",\"laps\": { \"duration\": 17, \"count\": 2 }");
        }
        t.push('}');
    }
    t.push_str("]}");
    if src.chance(1, 2) {
        t.push('\n');
    }
    t
}

pub const START: &[u8] = b"{\"version\": ";

pub fn block_body(content: &[u8], ty: u16, number: u16) -> Vec<u8> {
    let mut b = ((content.len() + 2) as u32).to_le_bytes().to_vec();
    b.extend_from_slice(&ty.to_le_bytes());
    b.extend_from_slice(&number.to_le_bytes());
    b.extend_from_slice(content);
    b
}

/// The document as a chain of hidden frames; the last one has number zero.
pub fn blocks(src: &mut Src, text: &[u8]) -> Vec<Frame> {
    let mut cuts = vec![];
    let least = START.len().min(text.len());
    match src.weighted(&[3, 4, 2, 1]) {
        0 => {}
        1 => {
            while src.more(cuts.len(), 1, 8, 2) {
                cuts.push(src.size(least, text.len()));
            }
        }
        // as the server does it
        2 => {
            let mut at = 8084;
            while at < text.len() {
                cuts.push(at);
                at += 8084;
            }
        }
        // lots of small ones
        _ => {
            let step = src.size(1, 12);
            let mut at = least;
            while at < text.len() {
                cuts.push(at);
                at += step;
            }
        }
    }
    cuts.sort_unstable();
    cuts.dedup();
    cuts.retain(|c| *c >= least && *c < text.len());
    cuts.push(text.len());
    let mut frames = vec![];
    let mut from = 0;
    let n = cuts.len();
    for (i, to) in cuts.into_iter().enumerate() {
        let number = if i + 1 == n { 0 } else { (i % 65_535 + 1) as u16 };
        let mut f = Frame::raw(0, Kind::Hidden, block_body(&text[from..to], 3, number));
        f.glued = i > 0;
        frames.push(f);
        from = to;
    }
    frames
}
