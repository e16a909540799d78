//! Statistics documents, players, teams and the server.
use std::collections::{BTreeMap, BTreeSet};

use mvdparser::all as m;
use mvdparser::KtxstatsV3;

use super::same;
use crate::engine::{call, Ctx, Fail, Outcome, Prop, Src};
use crate::gen::*;
use crate::ktx::{self, Doc, DocOpts, KPlayer};
use crate::wire::{self, uni, Kind};
use crate::{api, ensure, fail, rich};

fn parse(text: &str) -> Result<KtxstatsV3, String> {
    KtxstatsV3::try_from(text).map_err(|e| e.to_string())
}

// ---------------------------------------------------------------- C15

pub static C15: Prop = Prop {
    id: "C15",
    rule: "a document in at least two blocks, or several documents, or a damaged one; distinct by text and split",
    run: c15,
    quick: 350_000,
    thorough: 900_000,
    guided: 30_000,
    assumptions: &[
        "the literal start of a document does not occur outside of documents",
        "damage: cut short, a block or frame of another kind in the chain, or bytes that are not text; the numbers of blocks other than the last carry no information",
    ],
    extra: None,
};

/// Any text that starts like a document.
fn free_text(src: &mut Src) -> String {
    let mut t = String::from_utf8_lossy(ktx::START).to_string();
    if src.draw(4000) == 3999 {
        t.extend(std::iter::repeat_n('x', *src.pick(&[250_000usize, 270_000, 530_000, 1_050_000])));
        return t;
    }
    if src.draw(400) == 399 {
        // long: more than 64 KiB, maybe all in one block, or in more than 65536 of them
        t.extend(std::iter::repeat_n('x', src.size(65_400, 140_000)));
        return t;
    }
    while src.more(t.len(), 12, 3000, 200) {
        t.push(*src.pick(&[
            'a', '3', '"', '{', '}', '\0', '\n', 'é', '\u{7ff}', '日', '\u{1F980}', '\\', ':', ',', ' ', '\u{fffd}',
        ]));
    }
    t
}

fn surroundings(src: &mut Src, stats_players: usize) -> rich::Rich {
    let o = rich::Opts {
        roster: RosterOpts {
            max: 3,
            ..RosterOpts::default()
        },
        mix: Mix {
            frames: 5,
            ..Mix::default()
        },
        stats: 0,
        marks: 20,
        doc: DocOpts {
            players: stats_players,
            ..DocOpts::default()
        },
        ..rich::Opts::default()
    };
    if src.chance(1, 5) {
        // nothing else at all
        return rich::Rich::default();
    }
    rich::rich(src, &o)
}

fn c15(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut r = surroundings(src, 0);
    let n = src.weighted(&[1, 8, 2, 1]);
    let mut docs: Vec<(String, Option<Doc>, Vec<Frame>)> = vec![];
    for _ in 0..n {
        let (text, doc) = if src.chance(1, 4) {
            (free_text(src), None)
        } else {
            let players = *src.pick(&[4, 0, 16]);
            let odd_durations = src.chance(1, 6);
            let d = ktx::doc(
                src,
                DocOpts {
                    players,
                    odd_durations,
                    ..DocOpts::default()
                },
            );
            (d.text.clone(), Some(d))
        };
        let mut fs = ktx::blocks(src, text.as_bytes());
        if src.chance(1, 8) {
            // an empty block
            let mut f = Frame::raw(0, Kind::Hidden, ktx::block_body(b"", 3, 7));
            f.glued = true;
            if fs.len() > 1 {
                let at = src.size(1, fs.len() - 1);
                fs.insert(at, f);
            }
        }
        if src.chance(1, 4) {
            for f in &mut fs {
                f.dur = dur(src);
            }
        }
        docs.push((text, doc, fs));
    }
    // in order, at random gaps
    let mut at = match n {
        0 => vec![],
        _ => {
            let g = rich::gaps(&r.demo.frames, r.demo.body_from);
            (0..n).map(|_| *src.pick(&g)).collect()
        }
    };
    at.sort_unstable();
    let damage = if n > 0 { src.weighted(&[10, 2, 1, 1, 1, 1]) } else { 0 };
    let mut cut = None;
    for (k, i) in at.iter().enumerate().rev() {
        let mut fs = docs[k].2.clone();
        if k + 1 == n {
            let j = src.draw(fs.len() as u64) as usize;
            match damage {
                1 => cut = Some(()),
                2 => {
                    // a block of another kind
                    let kind = match src.draw(3) {
                        0 => *src.pick(&[0u16, 1, 2, 4, 5, 6, 7, 0xff]),
                        // only one of the two bytes is that of a block
                        1 => *src.pick(&[0x0103, 0x0300, 0x0303, 0x8003, 0xff03, 0x0203, 0x0003 ^ 0x4000]),
                        _ => src.draw(0x1_0000) as u16,
                    };
                    let kind = if kind == 3 { 0xffff } else { kind };
                    fs[j].raw[4..6].copy_from_slice(&kind.to_le_bytes());
                }
                3 if fs.len() > 1 => {
                    // hidden data between two blocks
                    let f = Frame::raw(0, Kind::Hidden, hidden_block(src));
                    fs.insert(j.max(1), f);
                }
                4 if fs.len() > 1 => {
                    // the last block is lost
                    fs.pop();
                }
                5 => {
                    // not text: behind the start of the first block
                    let skip = 8 + if j == 0 { 12 } else { 0 };
                    let room = fs[j].raw.len();
                    if room > skip {
                        let i = src.size(skip, room - 1);
                        fs[j].raw[i] = *src.pick(&[0xff, 0xc0, 0xfe]);
                    } else {
                        fs.truncate(1);
                        fs[0].raw = ktx::block_body(&[ktx::START, b"\xff"].concat(), 3, 0);
                    }
                }
                _ => {}
            }
        }
        if k + 1 == n && damage == 4 && docs[k].2.len() > 1 {
            // what follows must not look like a block by chance
            let mut f = Frame::new(0, Kind::All, vec![Msg::Raw(vec![1; 20])]);
            f.glued = true;
            fs.push(f);
        }
        r.demo.frames.splice(*i..*i, fs);
    }
    let mut data = r.demo.bytes();
    let mut cut_at = None;
    if cut.is_some() {
        let from = wire::find_last(&data, ktx::START).unwrap_or(0);
        let total: usize = docs[n - 1].2.iter().map(|f| f.raw.len() + 10).sum();
        let end = from - 18 + total;
        // the start itself has to remain
        if end > from + ktx::START.len() {
            let c = src.size(from + ktx::START.len(), end - 1);
            data.truncate(c);
            cut_at = Some(c);
        }
    } else if src.chance(1, 3) {
        data.extend_from_slice(&[9, 6, 100, 0, 0, 0, 1][..src.size(1, 7)]);
    }
    ctx.demo = data.clone();
    let damaged = match damage {
        1 => cut_at.is_some(),
        2 | 5 => true,
        3 | 4 => docs[n - 1].2.len() > 1,
        _ => false,
    };
    ctx.class(match (n, damaged) {
        (0, _) => "no document",
        (_, true) => "damaged",
        (1, _) => "one document",
        _ => "several documents",
    });
    let nblocks = docs.last().map_or(0, |d| d.2.len());
    ctx.class_if(nblocks > 1, "several blocks");
    ctx.class_if(nblocks > 255, "more than 255 blocks");
    ctx.class_if(cut_at.is_some(), "cut short");
    if n > 1 || nblocks > 1 || damaged {
        ctx.nontrivial(&data);
    }
    ctx.sample(|| {
        format!(
            "{n} documents, last in {nblocks} blocks, damage {damage}: {:.300}",
            docs.last().map_or("", |d| d.0.as_str())
        )
    });
    let got = api::ktxstats_string(ctx, &data)?;
    let v3 = api::ktxstats_v3(ctx, &data)?;
    if n == 0 || damaged {
        ensure!(got.is_err(), "ktxstats_string: {got:?} for a missing or damaged document");
        ensure!(v3.is_err(), "ktxstats_v3: {v3:?} for a missing or damaged document");
        return Ok(());
    }
    let (text, doc, _) = &docs[n - 1];
    same("ktxstats_string", &got, &Ok(text.clone()))?;
    let want = parse(text);
    ensure!(
        want.is_ok() == v3.is_ok(),
        "ktxstats_v3: {:?} while the text parses to {:?}",
        v3.as_ref().err(),
        want.as_ref().err()
    );
    if let (Ok(v), Ok(w)) = (v3, want) {
        same("ktxstats_v3", &format!("{v:?}"), &format!("{w:?}"))?;
        if let Some(d) = doc {
            agrees(&v, d)?;
        }
    }
    Ok(())
}

fn agrees(v: &KtxstatsV3, d: &Doc) -> Outcome {
    same("version", &v.version, &d.version)?;
    same("map", &v.map, &d.map)?;
    same("hostname", &v.hostname, &d.hostname)?;
    same("ip", &v.ip, &d.ip)?;
    same("port", &v.port, &d.port)?;
    same("mode", &v.mode, &d.mode)?;
    same("tl", &v.tl, &d.tl)?;
    same("dm", &v.dm, &d.dm)?;
    same("tp", &v.tp, &d.tp.unwrap_or(0))?;
    same("demo", &v.demo, &d.demo)?;
    same("players", &v.players.len(), &d.players.len())?;
    for (a, b) in v.players.iter().zip(&d.players) {
        let a = (&a.name, &a.team, &a.login, a.top_color, a.bottom_color, a.ping, a.stats.frags, a.bot.as_ref().map(|b| b.skill));
        let b = (&b.name, &b.team, &b.login, b.top, b.bottom, b.ping, b.frags, b.bot);
        same("player", &a, &b)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

pub static C16: Prop = Prop {
    id: "C16",
    rule: "at least two players; distinct by source and expected list",
    run: c16,
    quick: 150_000,
    thorough: 800_000,
    guided: 30_000,
    assumptions: &[
        "names of clients are unique; the order of players with equal frags and name is not specified",
        "whether a player of the statistics with a ping of 10 and no bot entry is a bot is not specified",
    ],
    extra: None,
};

fn from_stats(p: &KPlayer) -> api::Player {
    api::Player {
        name: p.name.clone(),
        team: p.team.clone(),
        color: [p.top as u8, p.bottom as u8],
        frags: p.frags,
        ping: p.ping as u32,
        is_bot: p.bot.is_some(),
        auth_username: (!p.login.is_empty()).then(|| p.login.clone()),
        auth_cc: None,
    }
}

/// Frags descending, then name; equal ones in any order.
fn player_list(what: &str, got: Result<Vec<api::Player>, String>, want: &[api::Player], stats: bool) -> Outcome {
    let mut got = match got {
        Ok(v) => v,
        Err(e) => fail!("{what} fails: {e}"),
    };
    for w in got.windows(2) {
        let key = |p: &api::Player| (std::cmp::Reverse(i64::from(p.frags)), p.name.clone());
        ensure!(key(&w[0]) <= key(&w[1]), "{what}: {:?} before {:?}", w[0], w[1]);
    }
    let mut want = want.to_vec();
    if stats {
        for p in got.iter_mut().chain(&mut want) {
            if p.ping == 10 {
                p.is_bot = true;
            }
        }
    }
    let key = |p: &api::Player| (std::cmp::Reverse(p.frags), p.name.clone(), format!("{p:?}"));
    got.sort_by_key(key);
    want.sort_by_key(key);
    same(what, &got, &want)
}

fn c16(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let with_stats = src.chance(1, 2);
    let busy = src.chance(3, 4);
    let o = rich::Opts {
        roster: RosterOpts {
            max: *src.pick(&[6, 16, 32]),
            spectators: 4,
            ..RosterOpts::default()
        },
        mix: Mix {
            noise: 3,
            obits: if busy { 8 } else { 1 },
            anon: 1,
            pings: if busy { 4 } else { 1 },
            flags: 1,
            chat: 2,
            updates: 1,
            frames: 8,
        },
        stats: if with_stats { 100 } else { 0 },
        marks: 20,
        doc: DocOpts {
            players: *src.pick(&[6, 3, 20]),
            bots: 4,
            ..DocOpts::default()
        },
        ..rich::Opts::default()
    };
    let mut r = rich::rich(src, &o);
    if src.chance(1, 12) {
        // nobody was updated
        r.demo.frames.retain(|f| !matches!(f.messages().first(), Some(Msg::Ping { .. })));
        ctx.class("without pings");
    }
    let mut data = r.demo.bytes();
    let mut usable = r.doc.is_some();
    if usable && src.chance(1, 4) {
        usable = false;
        if let Some(d) = &r.doc {
            let n = ktx::START.len();
            let end = d.text.trim_end().len();
            let mut t = d.text.as_bytes()[..end].to_vec();
            let how = src.draw(4);
            match how {
                // no number where there has to be one
                0 => t[n] = b'x',
                1 => t[n] = b'"',
                2 => {}
                // the last bracket is gone
                _ => {
                    t.pop();
                }
            }
            let mut fs = ktx::blocks(src, &t);
            if how == 2 {
                // the chain is broken
                let i = fs.len() - 1;
                fs[i].raw[4] = 9;
            }
            r.demo.frames.retain(|f| !(f.kind == Kind::Hidden && f.raw.get(4) == Some(&3)));
            let at = r.demo.frames.len() - usize::from(r.ended);
            r.demo.frames.splice(at..at, fs);
            data = r.demo.bytes();
        }
        ctx.class("unusable statistics");
    }
    ctx.demo = data.clone();
    let frags = model_frags(&r.demo.frames, &r.demo.roster);
    let pings = model_pings(&r.demo.frames);
    let has_spawn = r.demo.body_from > 0
        && r.demo.frames.iter().any(|f| matches!(f.msgs.first(), Some(Msg::Raw(b)) if b.starts_with(b"\x09cmd spawn")));
    let parsed: Option<Vec<api::Player>> = pings.filter(|_| has_spawn).map(|pings| {
        r.demo
            .roster
            .iter()
            .filter(|c| !c.spectator)
            .map(|c| api::Player {
                name: uni(&c.name),
                team: uni(&c.team),
                color: c.color,
                frags: frags.get(&uni(&c.name)).copied().unwrap_or(0),
                ping: pings.get(&c.slot).copied().unwrap_or(0),
                is_bot: c.bot,
                auth_username: c.auth.as_ref().map(|v| uni(v)),
                auth_cc: c.cc.as_ref().map(|v| uni(v)),
            })
            .collect()
    });
    let stats: Option<Vec<api::Player>> = match (&r.doc, usable) {
        (Some(d), true) => Some(d.players.iter().map(from_stats).collect()),
        _ => None,
    };
    ctx.class(match (&stats, &parsed) {
        (Some(_), _) => "from statistics",
        (None, Some(_)) => "from messages",
        _ => "neither",
    });
    if let Some(v) = stats.as_ref().or(parsed.as_ref()) {
        if v.len() >= 2 {
            ctx.nontrivial(format!("{} {v:?}", stats.is_some()).as_bytes());
        }
        let distinct: BTreeSet<i32> = v.iter().map(|p| p.frags).collect();
        ctx.class_if(distinct.len() < v.len(), "equal frags");
    }
    ctx.sample(|| {
        let v = stats.as_ref().or(parsed.as_ref());
        let v: Vec<String> = v.into_iter().flatten().map(|p| format!("{:?} {} {}", p.name, p.frags, p.ping)).collect();
        format!("statistics {}, {}", stats.is_some(), v.join("; "))
    });

    let got = api::players_from_parsing(ctx, &data)?;
    match &parsed {
        Some(w) => player_list("players_from_parsing", got, w, false)?,
        None => ensure!(got.is_err(), "players_from_parsing: {got:?} without roster or pings"),
    }
    let got = api::players(ctx, &data)?;
    match (&stats, &parsed) {
        (Some(w), _) => player_list("players", got, w, true)?,
        (None, Some(w)) => player_list("players", got, w, false)?,
        _ => ensure!(got.is_err(), "players: {got:?} without any source"),
    }
    if let (Some(w), Some(d)) = (&stats, &r.doc) {
        match parse(&d.text) {
            Ok(v) => {
                let got = call(ctx, "players_from_ktxstats", &data, || {
                    m::players_from_ktxstats(&v).map_err(|e| e.to_string())
                })?;
                player_list("players_from_ktxstats", got, w, true)?;
            }
            Err(e) => return Err(Fail(format!("the generated document does not parse: {e}: {}", d.text))),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

pub static C17: Prop = Prop {
    id: "C17",
    rule: "at least two teams, or a team of at least three; distinct by the players",
    run: c17,
    quick: 600_000,
    thorough: 4_000_000,
    guided: 60_000,
    assumptions: &["the frags of a team fit 32 bits"],
    extra: None,
};

const TEAM_POOL: &[&str] = &[
    "red", "RED", "Red", "blue", "Blue", "", "x", "X", "é", "É", "ß", "SS", "ss", "İ", "i", "I", "òåä", "\u{10}red\u{11}",
    " ", "red ", "Ω", "ω", "\u{1e9e}", "ǆ", "ǅ", "Ǆ", "ς", "σ", "Σ", "zz", "aa", "aB", "Ab", "AB",
];

fn some_players(src: &mut Src) -> Vec<api::Player> {
    let mut ps: Vec<api::Player> = vec![];
    let pool = match src.weighted(&[3, 2, 1]) {
        0 => 2,
        1 => 5,
        _ => TEAM_POOL.len(),
    };
    let shift = src.draw(TEAM_POOL.len() as u64) as usize;
    let colors = *src.pick(&[2u64, 3, 17]);
    let most = *src.pick(&[8usize, 3, 32, 70]);
    let pings = src.weighted(&[3, 1, 1]);
    while src.more(ps.len(), 0, most, most / 2) {
        let team = match src.weighted(&[8, 1]) {
            0 => TEAM_POOL[(src.draw(pool as u64) as usize + shift) % TEAM_POOL.len()].to_string(),
            _ => ktx::label(src),
        };
        let name = match src.weighted(&[3, 1]) {
            0 => src.pick(&["a", "b", "c", "A", "player"]).to_string(),
            _ => ktx::label(src),
        };
        ps.push(api::Player {
            name,
            team,
            color: [src.draw(colors) as u8, src.draw(2) as u8],
            frags: match src.weighted(&[8, 1, 1]) {
                0 => src.range(-20, 80) as i32,
                1 => src.range(-40_000, 40_000) as i32,
                _ => src.range(-30_000_000, 30_000_000) as i32,
            },
            ping: match pings {
                0 => src.draw(120) as u32,
                1 => src.edgy(0, 65535, &[255, 256, 32768]) as u32,
                _ => src.edgy(0, u32::MAX as i64, &[i64::from(i32::MAX), 65536]) as u32,
            },
            is_bot: src.chance(1, 5),
            auth_username: src.chance(1, 5).then(|| "login".to_string()),
            auth_cc: src.chance(1, 5).then(|| "se".to_string()),
        });
    }
    ps
}

/// The team of these players, all of the same team.
fn model_team(ps: &[api::Player]) -> api::Team {
    if ps.is_empty() {
        return api::Team::default();
    }
    let n = ps.len() as u64;
    let pings: u64 = ps.iter().map(|p| u64::from(p.ping)).sum();
    let color = if n < 3 {
        ps[0].color
    } else {
        let mut best = (0, 0);
        for (i, p) in ps.iter().enumerate() {
            let c = ps.iter().filter(|q| q.color == p.color).count();
            if c > best.0 {
                best = (c, i);
            }
        }
        ps[best.1].color
    };
    api::Team {
        name: ps[0].team.clone(),
        color,
        frags: ps.iter().map(|p| i64::from(p.frags)).sum::<i64>() as i32,
        ping: ((2 * pings + n) / (2 * n)) as u32,
        players: ps.to_vec(),
    }
}

fn model_teams(ps: &[api::Player]) -> Vec<api::Team> {
    let mut groups: BTreeMap<(String, String), Vec<api::Player>> = BTreeMap::new();
    for p in ps {
        groups
            .entry((p.team.to_lowercase(), p.team.clone()))
            .or_default()
            .push(p.clone());
    }
    groups.values().map(|g| model_team(g)).collect()
}

fn c17(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    if src.chance(1, 8) {
        return c17_recording(src, ctx);
    }
    let ps = some_players(src);
    let want = model_teams(&ps);
    ctx.class_if(ps.is_empty(), "nobody");
    ctx.class_if(want.iter().any(|t| t.players.len() >= 3), "three or more in a team");
    let keys: BTreeSet<String> = want.iter().map(|t| t.name.to_lowercase()).collect();
    ctx.class_if(keys.len() < want.len(), "teams that differ by case");
    ctx.class_if(
        want.iter().any(|t| {
            let mut n: BTreeMap<[u8; 2], usize> = BTreeMap::new();
            for p in &t.players {
                *n.entry(p.color).or_default() += 1;
            }
            let max = n.values().max().copied().unwrap_or(0);
            t.players.len() > 2 && n.values().filter(|v| **v == max).count() > 1
        }),
        "a tie of colors",
    );
    if want.len() > 1 || want.iter().any(|t| t.players.len() >= 3) {
        ctx.nontrivial(format!("{ps:?}").as_bytes());
    }
    ctx.sample(|| {
        let v: Vec<String> = ps
            .iter()
            .map(|p| format!("{:?} {:?} {:?} {} {}", p.name, p.team, p.color, p.frags, p.ping))
            .collect();
        v.join("; ")
    });
    let got = call(ctx, "teams_from_players", &[], || m::teams_from_players(&ps))?;
    same("teams_from_players", &got, &want)?;
    if let Some(t) = want.first() {
        let got = call(ctx, "Team::from", &[], || api::Team::from(t.players.as_slice()))?;
        same("Team::from", &got, t)?;
    }
    Ok(())
}

fn c17_recording(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let o = rich::Opts {
        mix: Mix {
            frames: 5,
            pings: 4,
            ..Mix::default()
        },
        marks: 10,
        stats: 50,
        doc: DocOpts {
            players: 10,
            ..DocOpts::default()
        },
        ..rich::Opts::default()
    };
    let r = rich::rich(src, &o);
    let data = r.demo.bytes();
    ctx.demo = data.clone();
    ctx.class("teams of a recording");
    let players = api::players(ctx, &data)?;
    let got = api::teams(ctx, &data)?;
    match players {
        Err(_) => ensure!(got.is_err(), "teams without players: {got:?}"),
        Ok(ps) => {
            let want = model_teams(&ps);
            if want.len() > 1 {
                ctx.nontrivial(format!("{ps:?}").as_bytes());
            }
            same("teams", &got, &Ok(want))?;
        }
    }
    if let Some(d) = &r.doc {
        if let Ok(v) = parse(&d.text) {
            let got = call(ctx, "teams_from_ktxstats", &data, || {
                m::teams_from_ktxstats(&v).map_err(|e| e.to_string())
            })?;
            same("teams_from_ktxstats", &got, &api::teams(ctx, &data)?)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

pub static C21: Prop = Prop {
    id: "C21",
    rule: "a usable document; distinct by host name, ip and port",
    run: c21,
    quick: 450_000,
    thorough: 900_000,
    guided: 20_000,
    assumptions: &["the literal start of a document does not occur outside of documents"],
    extra: None,
};

fn c21(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut r = surroundings(src, 3);
    let mut last: Option<(Doc, bool)> = None;
    let n = src.weighted(&[1, 6, 2]);
    let mut from = r.demo.body_from;
    for _ in 0..n {
        let mut d = ktx::doc(
            src,
            DocOpts {
                players: 2,
                ..DocOpts::default()
            },
        );
        let mut usable = true;
        if src.chance(1, 6) {
            // does not parse
            usable = false;
            let at = d.text.trim_end().len() - 1;
            d.text.truncate(at);
        }
        let fs = ktx::blocks(src, d.text.as_bytes());
        let g = rich::gaps(&r.demo.frames, from);
        let at = *src.pick(&g);
        from = at + fs.len();
        r.demo.frames.splice(at..at, fs);
        last = Some((d, usable));
    }
    let data = r.demo.bytes();
    ctx.demo = data.clone();
    let want = last.filter(|l| l.1).map(|(d, _)| api::Server {
        hostname: d.hostname.clone(),
        address: [d.ip.as_str(), ":", &d.port.to_string()].concat(),
        ip: d.ip.clone(),
        port: d.port,
    });
    ctx.class(match (&want, n) {
        (Some(_), 1) => "one document",
        (Some(_), _) => "several documents",
        (None, 0) => "no document",
        _ => "unusable document",
    });
    if want.is_some() {
        ctx.nontrivial(format!("{want:?}").as_bytes());
    }
    ctx.sample(|| format!("{want:?}"));
    same("server", &api::server(ctx, &data)?.ok(), &want)
}
