//! Who and where: roster, settings, time of the match, validity and state.
use super::same;
use crate::engine::{Ctx, Outcome, Prop, Src};
use crate::gen::*;
use crate::wire::{self, plain, uni, Kind};
use crate::zones::ZONES;
use crate::{api, ensure, fail, ktx, rich};

// ---------------------------------------------------------------- C08

pub static C08: Prop = Prop {
    id: "C08",
    rule: "at least two clients; distinct by their user info and slots",
    run: c08,
    quick: 180_000,
    thorough: 800_000,
    guided: 30_000,
    assumptions: &[
        "user info strings are at most 250 bytes, without empty values or white space at the edges of values",
        "at most about ten unused slots in a row are announced between two clients",
    ],
    extra: None,
};

fn as_client(c: &Client) -> api::Client {
    api::Client {
        number: c.slot,
        name: uni(&c.name),
        team: uni(&c.team),
        color: c.color,
        is_spectator: c.spectator,
        is_bot: c.bot,
        auth_username: c.auth.as_ref().map(|v| uni(v)),
        auth_cc: c.cc.as_ref().map(|v| uni(v)),
    }
}

/// A recording that is mostly opening and roster.
fn roster_demo(src: &mut Src, ctx: &mut Ctx, ro: &RosterOpts) -> Demo {
    let ro = match src.weighted(&[5, 1]) {
        0 => ro.clone(),
        _ => RosterOpts { max: 32, ..ro.clone() },
    };
    let cs = roster(src, &ro);
    let mix = Mix {
        updates: 3,
        frames: 4,
        ..Mix::default()
    };
    let with_info = src.chance(7, 8);
    let info = infostring(&usual_info(src));
    let mut d = demo_with(src, with_info.then_some(info.as_slice()), cs, &mix);
    match src.weighted(&[8, 1, 1]) {
        1 => {
            // the recording ends with the roster
            let at = d
                .frames
                .iter()
                .position(|f| matches!(f.msgs.first(), Some(Msg::Raw(b)) if b.starts_with(b"\x09cmd spawn")))
                .unwrap_or(0);
            let mut end = at + 1;
            while end < d.body_from
                && matches!(d.frames[end].msgs.first(), Some(Msg::Raw(b)) if b[0] != 20)
            {
                end += 1;
            }
            d.frames.truncate(end);
            d.body_from = end;
            ctx.class("ends with the roster");
        }
        2 => {
            // a second roster later does not count
            if src.chance(1, 2) {
                let again = d.roster.clone();
                let mut fs = spawn_frames(src, &again);
                fs.extend(filler(src));
                d.frames.extend(fs);
                ctx.class("a second spawn block");
            }
        }
        _ => {}
    }
    ctx.class_if(d.roster.iter().enumerate().any(|(i, c)| i != c.slot as usize), "slot gaps");
    ctx.class_if(d.roster.iter().any(|c| c.name.iter().any(|b| *b >= 128)), "colored names");
    ctx.class_if(d.roster.len() > 16, "more than 16 clients");
    ctx.class_if(d.roster.is_empty(), "nobody");
    d
}

fn roster_key(cs: &[Client]) -> Vec<u8> {
    cs.iter().flat_map(|c| [&[c.slot], c.userinfo().as_slice()].concat()).collect()
}

fn drop_spawn(d: &mut Demo) {
    let from = d
        .frames
        .iter()
        .position(|f| matches!(f.msgs.first(), Some(Msg::Raw(b)) if b.starts_with(b"\x09cmd spawn")));
    if let Some(from) = from {
        let to = d.body_from.max(from + 1);
        d.frames.drain(from..to);
        d.body_from = from;
    }
    // nor a second one
    d.frames.truncate(
        d.frames
            .iter()
            .position(|f| matches!(f.msgs.first(), Some(Msg::Raw(b)) if b.starts_with(b"\x09cmd spawn")))
            .unwrap_or(d.frames.len()),
    );
    d.roster.clear();
}

fn c08(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let ro = RosterOpts {
        unique_names: false,
        long: true,
        ..RosterOpts::default()
    };
    let mut d = roster_demo(src, ctx, &ro);
    if src.chance(1, 20) {
        drop_spawn(&mut d);
        let data = d.bytes();
        ctx.demo = data.clone();
        ctx.class("no spawn block");
        ensure!(api::clientinfo_strings(ctx, &data)?.is_err(), "clientinfo_strings without spawn block");
        ensure!(api::clientinfo(ctx, &data)?.is_err(), "clientinfo without spawn block");
        ensure!(api::clients(ctx, &data)?.is_err(), "clients without spawn block");
        return Ok(());
    }
    let data = d.bytes();
    ctx.demo = data.clone();
    if d.roster.len() >= 2 {
        ctx.nontrivial(&roster_key(&d.roster));
    }
    ctx.sample(|| {
        let v: Vec<String> = d.roster.iter().map(|c| format!("{}: {}", c.slot, uni(&c.userinfo()))).collect();
        v.join(" | ")
    });
    let want: Vec<String> = d.roster.iter().map(|c| uni(&c.userinfo())).collect();
    same("clientinfo_strings", &api::clientinfo_strings(ctx, &data)?, &Ok(want))?;
    let want: Vec<api::Client> = d.roster.iter().map(as_client).collect();
    same("clients", &api::clients(ctx, &data)?, &Ok(want))?;
    let infos = api::clientinfo(ctx, &data)?;
    ensure!(
        infos.as_ref().is_ok_and(|v| v.len() == d.roster.len()),
        "clientinfo: {infos:?} for {} clients",
        d.roster.len()
    );
    for (i, c) in infos.unwrap_or_default().iter().zip(&d.roster) {
        let want = format!("name: {:?}", Some(uni(&c.name)));
        ensure!(i.contains(&want), "clientinfo: {i} lacks {want}");
    }
    let has = api::has_clients(ctx, &data)?;
    same("has_clients", &has, &!d.roster.is_empty())
}

// ---------------------------------------------------------------- C09

pub static C09: Prop = Prop {
    id: "C09",
    rule: "a player and a spectator, or two teams; distinct by roster",
    run: c09,
    quick: 120_000,
    thorough: 800_000,
    guided: 30_000,
    assumptions: &["the order among names with the same plain-text form is not specified"],
    extra: None,
};

fn sort_key(s: &str) -> String {
    let b: Vec<u8> = s.chars().map(|c| c as u32 as u8).collect();
    plain(&b).to_lowercase()
}

/// got holds exactly `want`, sorted by plain text without case.
fn sorted_names(what: &str, got: Result<Vec<String>, String>, want: Vec<String>) -> Outcome {
    let got = match got {
        Ok(v) => v,
        Err(e) => fail!("{what} fails: {e}"),
    };
    ensure!(
        got.windows(2).all(|w| sort_key(&w[0]) <= sort_key(&w[1])),
        "{what}: {got:?} is not sorted"
    );
    let (mut a, mut b) = (got.clone(), want.clone());
    a.sort();
    b.sort();
    ensure!(a == b, "{what}: got {got:?}, expected (in any order) {want:?}");
    Ok(())
}

fn c09(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let ro = RosterOpts {
        unique_names: false,
        spectators: 3,
        bots: *src.pick(&[2, 6, 40]),
        ..RosterOpts::default()
    };
    let mut d = roster_demo(src, ctx, &ro);
    let mut stats_bot = false;
    if src.chance(1, 4) {
        let doc = ktx::doc(
            src,
            ktx::DocOpts {
                players: 4,
                bots: 3,
                ..ktx::DocOpts::default()
            },
        );
        stats_bot = doc.players.iter().any(|p| p.bot.is_some());
        if src.chance(1, 2) {
            let f = Frame::raw(0, Kind::Hidden, ktx::block_body(doc.text.as_bytes(), 3, 0));
            d.frames.push(f);
        } else {
            d.frames.extend(ktx::blocks(src, doc.text.as_bytes()));
        }
        ctx.class_if(stats_bot, "statistics mention a bot");
    } else if src.chance(1, 12) {
        // in another layout
        let t: &[u8] = *src.pick(&[
            br#""bot": {"skill": 5}"#.as_slice(),
            br#""bot": { "customised": true, "skill": 5 }"#,
            br#""bot": {}"#,
            br#""bot": {"#,
            br#"{"name": "a","bot": {
"skill": 3}"#,
        ]);
        d.frames.push(Frame::raw(0, Kind::Hidden, ktx::block_body(t, 3, 0)));
        stats_bot = true;
        ctx.class("a bot in another layout");
    }
    if src.chance(1, 25) {
        drop_spawn(&mut d);
        let data = d.bytes();
        ctx.demo = data.clone();
        ctx.class("no spawn block");
        ensure!(api::player_clients(ctx, &data)?.is_err(), "player_clients without spawn block");
        ensure!(api::spectator_clients(ctx, &data)?.is_err(), "spectator_clients without spawn block");
        ensure!(api::player_names(ctx, &data)?.is_err(), "player_names without spawn block");
        ensure!(api::spectator_names(ctx, &data)?.is_err(), "spectator_names without spawn block");
        ensure!(api::team_names(ctx, &data)?.is_err(), "team_names without spawn block");
        return Ok(());
    }
    let data = d.bytes();
    ctx.demo = data.clone();
    let all: Vec<api::Client> = d.roster.iter().map(as_client).collect();
    let (spectators, players): (Vec<_>, Vec<_>) = all.iter().cloned().partition(|c| c.is_spectator);
    let mut teams: Vec<String> = players.iter().map(|c| c.team.clone()).collect();
    teams.sort();
    teams.dedup();
    let keys: std::collections::BTreeSet<String> = teams.iter().map(|t| sort_key(t)).collect();
    ctx.class_if(keys.len() < teams.len(), "teams with the same plain text");
    ctx.class_if(
        spectators.iter().any(|s| !teams.contains(&s.team)),
        "a spectator team without players",
    );
    if (!players.is_empty() && !spectators.is_empty()) || teams.len() > 1 {
        ctx.nontrivial(&roster_key(&d.roster));
    }
    ctx.sample(|| {
        let v: Vec<String> = all.iter().map(|c| format!("{:?}/{:?}/{}", c.name, c.team, c.is_spectator)).collect();
        v.join(" ")
    });
    same("player_clients", &api::player_clients(ctx, &data)?, &Ok(players.clone()))?;
    same("spectator_clients", &api::spectator_clients(ctx, &data)?, &Ok(spectators.clone()))?;
    let names = |v: &[api::Client]| v.iter().map(|c| c.name.clone()).collect::<Vec<_>>();
    sorted_names("player_names", api::player_names(ctx, &data)?, names(&players))?;
    sorted_names("spectator_names", api::spectator_names(ctx, &data)?, names(&spectators))?;
    sorted_names("team_names", api::team_names(ctx, &data)?, teams)?;
    let bots = players.iter().any(|c| c.is_bot) || stats_bot;
    same("has_bot_players", &api::has_bot_players(ctx, &data)?, &Ok(bots))?;
    let humans = players.iter().any(|c| !c.is_bot);
    same("has_human_players", &api::has_human_players(ctx, &data)?, &Ok(humans))
}

// ---------------------------------------------------------------- C10

pub static C10: Prop = Prop {
    id: "C10",
    rule: "at least three known settings recorded within reach; distinct by the settings string",
    run: c10,
    quick: 400_000,
    thorough: 2_000_000,
    guided: 60_000,
    assumptions: &[
        "values hold no byte that turns into a backslash or quote, are not empty, and the last one has no white space at its end and is not 'n' (the infostring format reads those as delimiters)",
        "numbers fit 32 bits",
    ],
    extra: None,
};

const STRING_KEYS: &[&str] = &[
    "*admin", "*gamedir", "hostname", "ktxmode", "ktxver", "map", "matchtag", "mode", "*progs", "*qvm", "status",
    "serverdemo", "*version",
];
const INT_KEYS: &[&str] = &[
    "deathmatch", "epoch", "fpd", "fraglimit", "maxclients", "maxfps", "maxspectators", "needpass", "pm_ktjump",
    "sv_antilag", "teamplay", "timelimit", "*z_ext",
];
const OTHER_KEYS: &[&str] = &[
    "Hostname", "*map", "hostname2", "demo", "epochs", "progs", "version", "z_ext", "admin", "*mode", "k_pow", "x",
];

fn setting_text(src: &mut Src, max: usize) -> Vec<u8> {
    let mut t = match src.weighted(&[2, 2, 2]) {
        0 => text(src, max),
        1 => {
            let mut v = vec![];
            while src.more(v.len(), 1, max, 10) {
                v.push(src.byte());
            }
            v
        }
        _ => src
            .pick(&["a_vs_b[dm3]20240426-1659.mvd", "QUAKE.SE KTX:28501", "1on1", "n", "0", "\\n", "with space"])
            .as_bytes()
            .to_vec(),
    };
    if src.chance(1, 12) {
        // with something around it
        let back: &[u8] = *src.pick(&[
            b".gz".as_slice(), b".mvd.gz", b".mvd", b".MVD", b".zip", b".", b".qwd", b"/", b" (1)", b"~", b"#", b":27500", b".bsp",
        ]);
        let front: &[u8] = *src.pick(&[b"".as_slice(), b"", b"demos/", b"/", b"./", b"../", b"C:/", b"maps/", b"~", b"#"]);
        t = [front, &t, back].concat();
    }
    t.truncate(max.max(1));
    for b in &mut t {
        if *b == 0 || matches!(*b & 0x7f, 0x5c | 0x22) {
            *b = b'_';
        }
    }
    t
}

fn number_text(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[6, 2, 2, 1, 2]) {
        0 => src.edgy(0, i32::MAX as i64, &[255, 256, 511, 65535, 1713782300]).to_string().into_bytes(),
        1 => src.range(i32::MIN as i64, -1).to_string().into_bytes(),
        // in color
        2 => {
            let n = src.draw(5000).to_string();
            let style = src.draw(3);
            n.bytes()
                .map(|b| match style {
                    0 => b | 0x80,
                    1 => b - b'0' + 0x12,
                    _ => b - b'0' + 0x92,
                })
                .collect()
        }
        3 => src.pick(&["007", "+5", "-0", "00"]).as_bytes().to_vec(),
        _ => src.pick(&["on", "3x", "1.5", "0x10", "--1", "1 2", "-", "+"]).as_bytes().to_vec(),
    }
}

pub fn settings(src: &mut Src, most: usize) -> Pairs {
    let mut keys: Vec<&str> = vec![];
    for k in STRING_KEYS.iter().chain(INT_KEYS) {
        if src.chance(2, 3) {
            keys.push(k);
        }
    }
    for k in OTHER_KEYS {
        if src.chance(1, 8) {
            keys.push(k);
        }
    }
    if keys.is_empty() {
        keys.push("map");
    }
    src.shuffle(&mut keys);
    let mut p: Pairs = vec![];
    let mut room = most;
    for k in keys {
        let v = if INT_KEYS.contains(&k) || src.chance(1, 12) {
            number_text(src)
        } else {
            let max = *src.pick(&[10, 30, 60, 200]);
            setting_text(src, max)
        };
        if k.len() + v.len() + 2 > room {
            continue;
        }
        room -= k.len() + v.len() + 2;
        p.push((k.as_bytes().to_vec(), v));
    }
    p
}

pub fn model_settings(p: &Pairs) -> api::Settings {
    let text = |k: &str| p.iter().find(|(a, _)| a == k.as_bytes()).map(|(_, v)| plain(v));
    let int = |k: &str| {
        let t = text(k)?;
        let (neg, digits) = match t.as_bytes().first()? {
            b'-' => (true, &t[1..]),
            b'+' => (false, &t[1..]),
            _ => (false, t.as_str()),
        };
        if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        let v: i64 = digits.bytes().fold(0, |a, b| a * 10 + i64::from(b - b'0'));
        i32::try_from(if neg { -v } else { v }).ok()
    };
    api::Settings {
        admin: text("*admin"),
        deathmatch: int("deathmatch"),
        epoch: int("epoch"),
        fpd: int("fpd"),
        fraglimit: int("fraglimit"),
        gamedir: text("*gamedir"),
        hostname: text("hostname"),
        ktxmode: text("ktxmode"),
        ktxver: text("ktxver"),
        map: text("map"),
        matchtag: text("matchtag"),
        maxclients: int("maxclients"),
        maxfps: int("maxfps"),
        maxspectators: int("maxspectators"),
        mode: text("mode"),
        needpass: int("needpass"),
        pm_ktjump: int("pm_ktjump"),
        progs: text("*progs"),
        qvm: text("*qvm"),
        status: text("status"),
        serverdemo: text("serverdemo"),
        sv_antilag: int("sv_antilag"),
        teamplay: int("teamplay"),
        timelimit: int("timelimit"),
        version: text("*version"),
        z_ext: int("*z_ext"),
    }
}

/// A recording whose settings string ends at `quote` at the latest possible place; returns the
/// index of the closing quote.
fn settings_at(src: &mut Src, info: &[u8], quote: Option<usize>) -> (Demo, Vec<u8>, usize) {
    let mut frames = head_frames(src, Some(info));
    // messages in front
    let probe = Demo {
        frames: frames.clone(),
        ..Demo::default()
    }
    .bytes();
    let needle = b"fullserverinfo \"";
    let start = wire::find(&probe, needle).unwrap_or(0) + needle.len();
    let at = start + info.len();
    if let Some(q) = quote {
        if q >= at + 7 {
            let mut b = vec![48u8];
            b.resize(q - at - 6, 0x31);
            frames.insert(0, Frame::new(0, Kind::All, vec![Msg::Raw(b)]));
        } else if q > at {
            // within the same frame
            let b = vec![1u8; q - at];
            frames[0].msgs.insert(0, Msg::Raw(b));
        }
    }
    let d = Demo {
        frames,
        ..Demo::default()
    };
    let data = d.bytes();
    let at = wire::find(&data, needle).unwrap_or(0) + needle.len() + info.len();
    (d, data, at)
}

/// The string as it is, whatever it holds.
fn raw_settings(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut info = vec![];
    let most = *src.pick(&[20usize, 200, 1000]);
    while src.more(info.len(), 1, most, most / 2) {
        match src.weighted(&[3, 2, 3]) {
            0 => info.push(src.byte()),
            1 => info.push(b'\\'),
            _ => info.extend_from_slice(src.pick(STRING_KEYS).as_bytes()),
        }
    }
    info.retain(|b| *b != b'"');
    if info.is_empty() {
        return Ok(());
    }
    let (_, data, at) = settings_at(src, &info, None);
    if at >= 1280.min(data.len()) {
        return Ok(());
    }
    ctx.demo = data.clone();
    ctx.class("arbitrary settings text");
    ctx.nontrivial(&info);
    ctx.sample(|| format!("settings text {:?}", uni(&info)));
    same("serverinfo_string", &api::serverinfo_string(ctx, &data)?, &Ok(plain(&info)))
}

fn c10(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    if src.chance(1, 20) {
        return raw_settings(src, ctx);
    }
    let most = *src.pick(&[1100, 300, 60]);
    let p = settings(src, most);
    let info = infostring(&p);
    let place = src.weighted(&[5, 4, 1]);
    let quote = match place {
        0 => None,
        1 => Some(src.size(1270, 1290)),
        _ => Some(src.size(300, 3000)),
    };
    let (mut d, mut data, at) = if src.chance(1, 25) {
        ctx.class("no settings");
        let mut d = Demo {
            frames: head_frames(src, None),
            ..Demo::default()
        };
        if src.chance(1, 2) {
            let mut t = src.pick(&[b"fullserverinfo ".as_slice(), b"serverinfo \"", b"fullServerinfo \""]).to_vec();
            t.extend_from_slice(&info);
            t.insert(0, 9);
            if t.contains(&b'"') {
                t.push(b'"');
            }
            t.push(0);
            d.frames.push(Frame::new(0, Kind::All, vec![Msg::Raw(t)]));
        }
        let data = d.bytes();
        (d, data, usize::MAX)
    } else {
        settings_at(src, &info, quote)
    };
    // what follows: nothing, a little, more than the window
    match src.weighted(&[2, 2, 2, 1]) {
        0 => {
            if at < data.len() {
                // cut just behind or just in front of the closing quote
                let cut = at + src.draw(3) as usize;
                data.truncate(cut.min(data.len()));
                ctx.class("cut at the closing quote");
            }
        }
        1 => {}
        2 => {
            for _ in 0..src.size(1, 30) {
                d.frames.push(noise_frame(src));
            }
            data = d.bytes();
        }
        _ => {
            let ro = RosterOpts {
                max: 4,
                ..RosterOpts::default()
            };
            let cs = roster(src, &ro);
            d.frames.extend(spawn_frames(src, &cs));
            data = d.bytes();
        }
    }
    ctx.demo = data.clone();
    let within = at < 1280.min(data.len());
    ctx.class(if within { "within reach" } else { "out of reach or missing" });
    ctx.class_if(data.len() < 1280, "shorter than 1280 bytes");
    ctx.class_if(at == 1279, "ends at the last possible byte");
    ctx.class_if(at == 1280, "ends one byte too late");
    let known = p
        .iter()
        .filter(|(k, _)| STRING_KEYS.iter().chain(INT_KEYS).any(|n| n.as_bytes() == k.as_slice()))
        .count();
    if within && known >= 3 {
        ctx.nontrivial(&info);
    }
    ctx.sample(|| format!("closing quote at {at} of {} bytes: {}", data.len(), uni(&info)));
    let s = api::serverinfo_string(ctx, &data)?;
    let v = api::serverinfo(ctx, &data)?;
    let f = api::filename(ctx, &data)?;
    let e = api::timestamp_from_epoch(ctx, &data)?;
    if !within {
        ensure!(s.is_err(), "serverinfo_string finds {s:?} without settings in reach");
        ensure!(v.is_err(), "serverinfo finds {v:?} without settings in reach");
        ensure!(f.is_err(), "filename finds {f:?} without settings in reach");
        ensure!(e.is_err(), "timestamp_from_epoch finds {e:?} without settings in reach");
        return Ok(());
    }
    same("serverinfo_string", &s, &Ok(plain(&info)))?;
    let want = model_settings(&p);
    same("serverinfo", &v, &Ok(want.clone()))?;
    same("filename", &f.ok(), &want.serverdemo)?;
    same(
        "timestamp_from_epoch",
        &e.ok(),
        &want.epoch.map(|e| (i64::from(e), 0)),
    )
}

// ---------------------------------------------------------------- C11

pub static C11: Prop = Prop {
    id: "C11",
    rule: "both an epoch setting and a match date print are recorded; distinct by both",
    run: c11,
    quick: 400_000,
    thorough: 2_000_000,
    guided: 60_000,
    assumptions: &["epochs fit 32 bits"],
    extra: None,
};

fn c11(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut p = usual_info(src);
    let epoch = match src.weighted(&[5, 4, 3]) {
        0 => Some(src.edgy(i32::MIN as i64, i32::MAX as i64, &[1713782300, 0, 1, -1]).to_string()),
        1 => None,
        _ => Some(src.pick(&["soon", "17x", "1.7e9", "12:30", "-", "0x66", "1713 782300"]).to_string()),
    };
    if let Some(e) = &epoch {
        let at = src.size(0, p.len() - 1);
        p.insert(at, (b"epoch".to_vec(), e.clone().into_bytes()));
    }
    let e: Option<i64> = epoch.as_ref().and_then(|e| e.parse::<i32>().ok()).map(i64::from);
    let info = infostring(&p);
    let with_info = src.chance(9, 10);
    let mut d = Demo {
        frames: head_frames(src, with_info.then_some(info.as_slice())),
        ..Demo::default()
    };
    d.body_from = d.frames.len();
    while src.chance(1, 2) {
        d.frames.push(noise_frame(src));
    }
    let mut first: Option<Date> = None;
    let n = src.weighted(&[3, 5, 2]);
    for _ in 0..n {
        let date = date(src);
        let f = Frame::new(dur(src), target(src), vec![rich::matchdate_msg(date.text.as_bytes())]);
        d.frames.push(f);
        while src.chance(1, 3) {
            d.frames.push(noise_frame(src));
        }
        first.get_or_insert(date);
    }
    let data = d.bytes();
    ctx.demo = data.clone();
    let e = if with_info { e } else { None };
    let m = first.as_ref().and_then(|f| f.instant);
    ctx.class(match (e.is_some(), m.is_some()) {
        (true, true) => "epoch and match date",
        (true, false) => "epoch only",
        (false, true) => "match date only",
        _ => "neither",
    });
    ctx.class_if(epoch.is_some() && e.is_none(), "useless epoch");
    if epoch.is_some() && first.is_some() {
        ctx.nontrivial(format!("{epoch:?} {:?}", first.as_ref().map(|f| &f.text)).as_bytes());
    }
    ctx.sample(|| format!("epoch {epoch:?} (settings: {with_info}), match date {first:?}"));
    let got = api::timestamp(ctx, &data)?;
    same("timestamp", &got.ok(), &e.or(m).map(|t| (t, 0)))?;
    let got = api::timestamp_from_epoch(ctx, &data)?;
    same("timestamp_from_epoch", &got.ok(), &e.map(|t| (t, 0)))
}

// ---------------------------------------------------------------- C12

pub static C12: Prop = Prop {
    id: "C12",
    rule: "a date that converts, or one that is rejected for a single reason; distinct by its text",
    run: c12,
    quick: 500_000,
    thorough: 5_000_000,
    guided: 60_000,
    assumptions: &[
        "the zone table is the supported one, pinned in the check; the first entry of a repeated abbreviation counts",
        "leap seconds are left out, and so is the character between time and zone",
    ],
    extra: None,
};

#[derive(Clone, Debug)]
pub struct Date {
    pub text: String,
    /// seconds since the epoch, if it is to be accepted
    pub instant: Option<i64>,
    pub why: &'static str,
}

fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

fn month_days(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + i64::from(leap(y)),
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

/// Days since 1970-01-01 by counting years and months.
fn days(y: i64, m: i64, d: i64) -> i64 {
    let before = |y: i64| {
        let p = y - 1;
        p * 365 + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400)
    };
    let months: i64 = (1..m).map(|m| month_days(y, m)).sum();
    before(y) - before(1970) + months + d - 1
}

pub fn date(src: &mut Src) -> Date {
    let y = match src.weighted(&[4, 2, 1]) {
        0 => src.range(1996, 2037),
        1 => *src.pick(&[1900, 1970, 1999, 2000, 2004, 2038, 2100, 2400, 1969, 2024]),
        _ => src.range(1, 9999),
    };
    let m = src.range(1, 12);
    let d = match src.weighted(&[3, 1, 1]) {
        0 => src.range(1, month_days(y, m)),
        1 => 1,
        _ => month_days(y, m),
    };
    let (h, mi, s) = (src.range(0, 23), src.range(0, 59), src.range(0, 59));
    let mut zone;
    let mut offset;
    match src.weighted(&[5, 5, 3]) {
        0 => {
            let (z, o) = *src.pick(ZONES);
            zone = z.to_string();
            offset = Some(i64::from(o));
        }
        1 => {
            let sign = *src.pick(&['+', '-']);
            let n = src.edgy(0, 1200, &[30, 59, 100, 130, 200, 530, 545, 930, 1145, 1159, 1200, 60, 99, 199]);
            let (hh, mm) = (n / 100, n % 100);
            if mm == 0 && src.chance(1, 2) {
                zone = format!("{sign}{hh:02}");
            } else {
                zone = format!("{sign}{hh:02}{mm:02}");
            }
            offset = (mm < 60).then_some((hh * 60 + mm) * if sign == '-' { -1 } else { 1 });
        }
        _ if src.chance(1, 2) => {
            // one letter away from a known zone
            offset = None;
            let mut z = src.pick(ZONES).0.as_bytes().to_vec();
            let at = src.size(0, z.len() - 1);
            let c = *src.pick(b"ABCDEGMNPSTUWXZ+1-. ");
            match src.draw(5) {
                0 => z.insert(at, c),
                1 => z.push(c),
                2 => z[at] = c,
                3 => z[at] |= 0x20,
                _ => {
                    z.remove(at);
                }
            }
            while z.first() == Some(&b' ') {
                z.remove(0);
            }
            while z.last() == Some(&b' ') {
                z.pop();
            }
            zone = String::from_utf8(z).unwrap_or_default();
            if ZONES.iter().any(|(k, _)| *k == zone) || !zone.starts_with(|c: char| c.is_ascii_alphabetic()) {
                zone = "QQQQ".to_string();
            }
        }
        _ => {
            offset = None;
            zone = src
                .pick(&[
                    "XX", "ABC", "QQQQ", "cest", "Cest", "CES", "CESTX", "GMT1", "UTC+", "ZZZ", "+1", "-5", "+123", "+13",
                    "+99", "-13", "+1300", "-1201", "+9999", "+0x1", "+ab", "-abcd", "+1a", "++2", "+-02", "0200", "+2:0",
                    "+2:00", "+02:0", "+:::", "é", "éé", "\u{2212}0930", "+1 0", "+ 12", "1200", "::", "+12\u{e9}",
                    "-0 30", "+0A00", "+02:", "+:02", "-0:20", "+020:", "-:0330", "+:",
                ])
                .to_string();
        }
    }
    let time = format!("{y:04}-{m:02}-{d:02} {h:02}:{mi:02}:{s:02}");
    let good = |offset: Option<i64>| offset.map(|o| days(y, m, d) * 86400 + h * 3600 + mi * 60 + s - o * 60);
    if offset.is_some() && src.chance(1, 12) {
        // a blank behind a good zone
        zone.push_str(*src.pick(&[" ", "\t", "\r", "\u{a0}", " "]));
        offset = None;
    }
    let (text, instant, why) = match src.weighted(&[10, 3, 2, 2]) {
        0 => {
            let why = if offset.is_some() { "good" } else { "zone" };
            (format!("{time} {zone}"), good(offset), why)
        }
        // impossible dates and times
        1 => {
            let (mut m, mut d, mut h, mut mi, mut s) = (m, d, h, mi, s);
            match src.draw(7) {
                0 => m = *src.pick(&[0, 13, 99]),
                1 => d = *src.pick(&[0, 32, 99]),
                2 => d = month_days(y, m) + 1,
                3 => h = *src.pick(&[24, 25, 99]),
                4 => mi = *src.pick(&[60, 61, 99]),
                5 => s = *src.pick(&[61, 62, 99]),
                _ => {
                    m = 2;
                    d = 30;
                }
            }
            (format!("{y:04}-{m:02}-{d:02} {h:02}:{mi:02}:{s:02} {zone}"), None, "date")
        }
        // the wrong length
        2 => {
            let t = match src.draw(6) {
                0 => format!("{time} "),
                1 => format!("{time} Z"),
                2 => time.clone(),
                3 => format!("{time} +02:00"),
                4 => format!("{time} CESTCE"),
                _ => {
                    zone.push_str("abcdef");
                    format!("{time} {zone}")
                }
            };
            (t, None, "length")
        }
        _ => {
            let zone = "CEST";
            let t = match src.draw(6) {
                0 => format!("{y:04}/{m:02}/{d:02} {h:02}:{mi:02}:{s:02} {zone}"),
                1 => format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02} {zone}"),
                2 => format!("{m:02}-{d:02}-{y:04} {h:02}:{mi:02}:{s:02} {zone}"),
                3 => format!("{y:04}-{m:02}-{d:02} {h:02}.{mi:02}.{s:02} {zone}"),
                4 => format!("x{:03}-{m:02}-{d:02} {h:02}:{mi:02}:{s:02} {zone}", y % 1000),
                _ => format!("{y:04}-{m:02}-{d:02} {h:02}:{mi:02}:xx {zone}"),
            };
            // 12-31-2024 and the like stay out of range as a year-first date
            (t, None, "format")
        }
    };
    Date { text, instant, why }
}

fn c12(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let date = date(src);
    let mut d = Demo::default();
    while src.chance(1, 3) {
        d.frames.push(noise_frame(src));
    }
    let form = src.weighted(&[12, 1, 1]);
    match form {
        0 => {
            let f = Frame::new(dur(src), target(src), vec![rich::matchdate_msg(date.text.as_bytes())]);
            d.frames.push(f);
        }
        1 => {
            // other prints that mention a date
            let (id, pre): (u8, &[u8]) =
                *src.pick(&[(3, b"matchdate: ".as_slice()), (2, b"Matchdate: "), (1, b"matchdate: "), (2, b"matchdate ")]);
            let f = Frame::new(0, Kind::All, vec![Msg::print(id, [pre, date.text.as_bytes(), b"\n"].concat())]);
            d.frames.push(f);
        }
        _ => {}
    }
    let mut data = d.bytes();
    let mut unfinished = false;
    if form == 0 && src.chance(1, 20) {
        // the recording stops within the date
        let at = wire::find(&data, b"matchdate: ").unwrap_or(0) + 11;
        data.truncate(at + src.size(0, date.text.len()));
        unfinished = true;
        ctx.class("cut within the date");
    } else {
        while src.chance(1, 3) {
            let f = noise_frame(src);
            wire::put_frame(&mut data, f.dur, &f.kind, &f.body());
        }
    }
    ctx.demo = data.clone();
    let there = form == 0 && !unfinished;
    ctx.class(if !there { "no date" } else { date.why });
    if there {
        ctx.nontrivial(date.text.as_bytes());
    }
    ctx.sample(|| format!("{date:?}"));
    let s = api::matchdate_string(ctx, &data)?;
    let n = date.text.len();
    if there && (22..=25).contains(&n) {
        same("matchdate_string", &s, &Ok(date.text.clone()))?;
    } else {
        ensure!(s.is_err(), "matchdate_string: {s:?} for {date:?}");
    }
    let want = if there { date.instant } else { None };
    let got = api::matchdate(ctx, &data)?;
    same(&format!("matchdate of {:?}", date.text), &got.ok(), &want.map(|t| (t, 0)))?;
    let got = api::timestamp(ctx, &data)?;
    same("timestamp without settings", &got.ok(), &want.map(|t| (t, 0)))
}

// ---------------------------------------------------------------- C18

pub static C18: Prop = Prop {
    id: "C18",
    rule: "at most one of the four conditions fails; distinct by length, condition and roster",
    run: c18,
    quick: 400_000,
    thorough: 500_000,
    guided: 20_000,
    assumptions: &["the end-of-demo message starts its frame or follows a print"],
    extra: None,
};

fn c18(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let broken = src.weighted(&[6, 2, 2, 2, 2]);
    let mut p = usual_info(src);
    if src.chance(1, 2) {
        p.truncate(2);
    }
    let info = infostring(&p);
    let ro = RosterOpts {
        min: usize::from(broken != 4),
        max: if broken == 4 { 0 } else { 4 },
        ..RosterOpts::default()
    };
    let mut cs = roster(src, &ro);
    if src.chance(1, 12) {
        // clients without a name
        for c in &mut cs {
            if c.userinfo().len() - c.name.len() > 20 {
                c.pairs.iter_mut().filter(|(k, _)| k == b"name").for_each(|(_, v)| v.clear());
                ctx.class("clients without a name");
            }
        }
    }
    let mut frames = vec![];
    match (broken, src.weighted(&[3, 2])) {
        (3, 0) => frames.extend(head_frames(src, None)),
        (3, _) => {
            let q = src.size(1280, 1300);
            frames.extend(settings_at(src, &info, Some(q)).0.frames);
            ctx.class("settings out of reach");
        }
        (_, 0) => frames.extend(head_frames(src, Some(&info))),
        _ => {
            let q = src.size(1200, 1279);
            frames.extend(settings_at(src, &info, Some(q)).0.frames);
        }
    }
    let no_spawn = broken == 4 && src.chance(1, 2);
    if !no_spawn {
        frames.extend(spawn_frames(src, &cs));
    }
    let has_clients = !no_spawn && !cs.is_empty();
    // bring it to a length around the minimum, or make it longer
    let end_ok = broken != 2;
    let mut end = vec![];
    let e = end_frame(src);
    wire::put_frame(&mut end, e.dur, &e.kind, &e.body());
    if !end_ok {
        let n = end.len();
        match src.draw(6) {
            0 => end.clear(),
            1 => end.truncate(n - 1),
            2 => end.push(src.byte()),
            3 => end[n - 3] = b'p',
            4 => end[n - 11] = 3,
            _ => end.extend_from_slice(b"\x0d\x06\x01\0\0\0\x01"),
        }
    }
    let so_far = Demo {
        frames: frames.clone(),
        ..Demo::default()
    }
    .bytes()
    .len();
    let mut filled = false;
    let goal = match (broken, src.weighted(&[3, 3])) {
        (1, _) => src.size(900, 1023),
        (_, 0) => src.size(1024, 1040),
        _ => src.size(1024, 3000),
    };
    if goal > so_far + end.len() + 7 {
        let n = goal - so_far - end.len() - 6;
        let mut b = vec![48];
        b.resize(n, 0x11);
        // what is recorded in between does not matter
        if src.chance(1, 3) {
            let t = match src.draw(7) {
                0 => rich::aborted_text(),
                1 => [rich::PAUSED_TEXTS[0], b"\n"].concat(),
                2 => [b"a ", rich::PAUSED_TEXTS[1], b"\n"].concat(),
                3 => rich::MATCH_OVER_TEXT.to_vec(),
                4 => b"matchdate: 2024-04-26 16:59:12 CEST\n".to_vec(),
                5 => b"{\"version\": 3, ".to_vec(),
                _ => b"\0\x02EndOfDemo".to_vec(),
            };
            let at = if src.chance(1, 2) { 0 } else { n.saturating_sub(t.len() + 4) };
            if at + t.len() + 3 < n {
                b[at..at + 2].copy_from_slice(&[8, 2]);
                b[at + 2..at + 2 + t.len()].copy_from_slice(&t);
                b[at + 2 + t.len()] = 0;
                ctx.class("marker texts in between");
            }
        }
        frames.push(Frame::new(0, Kind::All, vec![Msg::Raw(b)]));
        filled = true;
    }
    let all = Demo {
        frames,
        ..Demo::default()
    };
    let (mut data, offsets) = all.encode();
    if filled && has_clients && src.chance(1, 6) {
        // frames that cannot be walked
        let at = offsets[offsets.len() - 1] + src.draw(6) as usize;
        data[at] = src.byte();
        ctx.class("a damaged frame in between");
    }
    data.extend_from_slice(&end);
    ctx.demo = data.clone();

    let long = data.len() >= 1024;
    let head = &data[..data.len().min(1280)];
    let has_info = wire::find(head, &[b"fullserverinfo \"".as_slice(), &info, b"\""].concat()).is_some();
    let want = long && end_ok && has_info && has_clients;
    ctx.class(match (long, end_ok, has_info, has_clients) {
        (true, true, true, true) => "valid",
        (false, true, true, true) => "too short",
        (true, false, true, true) => "no end",
        (true, true, false, true) => "no settings",
        (true, true, true, false) => "no clients",
        _ => "several conditions fail",
    });
    ctx.class_if(data.len() == 1024, "1024 bytes");
    ctx.class_if(data.len() == 1023, "1023 bytes");
    let failing = [long, end_ok, has_info, has_clients].iter().filter(|c| !**c).count();
    if failing <= 1 {
        ctx.nontrivial(format!("{} {long}{end_ok}{has_info}{has_clients} {}", data.len(), uni(&roster_key(&cs))).as_bytes());
    }
    ctx.sample(|| format!("{} bytes, end {end_ok}, settings {has_info}, clients {has_clients}", data.len()));
    same("is_valid", &api::is_valid(ctx, &data)?, &want)?;
    same("has_clients", &api::has_clients(ctx, &data)?, &has_clients)?;
    same("has_end_of_demo_print", &api::has_end_of_demo_print(ctx, &data)?, &end_ok)?;
    if want {
        // torn anywhere, it is not valid
        for _ in 0..6 {
            let cut = match src.weighted(&[2, 1]) {
                0 => src.size(0, data.len() - 1),
                _ => data.len() - 1 - src.draw(30) as usize,
            };
            if data[..cut].ends_with(b"EndOfDemo\0") {
                continue;
            }
            ensure!(!api::is_valid(ctx, &data[..cut])?, "valid after {cut} of {} bytes", data.len());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

pub static C19: Prop = Prop {
    id: "C19",
    rule: "a marker or a near miss is recorded; distinct by texts, place and end",
    run: c19,
    quick: 500_000,
    thorough: 1_000_000,
    guided: 30_000,
    assumptions: &["markers are looked for in the bytes of the recording, whatever message holds them"],
    extra: None,
};

fn c19(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let ro = RosterOpts {
        max: 3,
        ..RosterOpts::default()
    };
    let mix = Mix {
        frames: 6,
        anon: 0,
        ..Mix::default()
    };
    let info = infostring(&usual_info(src));
    let cs = roster(src, &ro);
    let mut d = demo_with(src, Some(&info), cs, &mix);
    if matches!(d.frames.last().and_then(|f| f.msgs.last()), Some(Msg::Raw(b)) if b.starts_with(b"\x02End")) {
        d.frames.pop();
    }
    let (mut aborted, mut paused) = (false, false);
    let mut key = vec![];
    while src.more(key.len() / 16, 0, 4, 1) {
        let abort = rich::aborted_text();
        let kind = src.draw(4);
        let (id, mut text): (u8, Vec<u8>) = match kind {
            0 => (2, abort.clone()),
            1 | 2 => {
                let front = match src.draw(3) {
                    0 => src.pick(&[b"".as_slice(), b"un", b"x", b"\xa0", b"\n", b"Server is", b"not "]).to_vec(),
                    _ => [text(src, 10), b" ".to_vec()].concat(),
                };
                let back: &[u8] = if kind == 2 { b"\n" } else { b"" };
                (*src.pick(&[0, 1, 2, 3]), [&front, rich::PAUSED_TEXTS[kind as usize - 1], back].concat())
            }
            _ => (2, b"Server is paused".to_vec()),
        };
        let mut hit = true;
        if src.chance(1, 2) {
            // not quite
            hit = false;
            match (kind, src.draw(8)) {
                (0, 0) => return c19_level(src, ctx, d, abort),
                (0, 1) => text = b"Match stopped by majority vote\n".to_vec(),
                (0, 2) => {
                    text.pop();
                }
                (0, 3) => text.iter_mut().for_each(|c| *c |= 0x80),
                (0, 4) => {
                    let at = text.len() - 2;
                    text.insert(at, b'!');
                }
                // only a part of the message
                (0, 5) => text.extend_from_slice(*src.pick(&[b"by a\n".as_slice(), b"\n", b" ", b"!"])),
                (0, 6) => text = [*src.pick(&[b"a: ".as_slice(), b" ", b"\n", b"\xcd"]), &text].concat(),
                _ => {
                    // the marker is in the last bytes
                    let n = if kind == 0 { text.len() } else { 15 };
                    let tail = text.len() - n.min(text.len());
                    let skip_nl = usize::from(text.ends_with(b"\n"));
                    let at = src.size(tail + 1, text.len() - 1 - skip_nl);
                    text[at] = if text[at] == b'~' { b'|' } else { b'~' };
                }
            }
        }
        if hit {
            match kind {
                0 => aborted = true,
                _ => paused = true,
            }
        }
        key.extend_from_slice(&[kind as u8, u8::from(hit)]);
        key.resize((key.len() + 15) / 16 * 16, 0);
        // anywhere in a frame
        let mut msgs = vec![];
        if src.chance(1, 3) {
            msgs.push(Msg::Raw(noise_msg(src)));
        }
        msgs.push(Msg::print(id, text));
        if src.chance(1, 3) {
            msgs.push(Msg::Raw(noise_msg(src)));
        }
        let f = Frame::new(dur(src), target(src), msgs);
        if src.chance(1, 3) {
            d.frames.push(f);
        } else {
            rich::insert(src, &mut d, vec![f]);
        }
    }
    let mut ended = src.chance(1, 2);
    if src.chance(1, 800) {
        // a lot in front or behind
        let mut body = vec![1u8; 20];
        if src.chance(1, 2) {
            body.push(src.byte());
        }
        let n = *src.pick(&[70_000usize, 140_000, 300_000]) / (body.len() + 6);
        let at = *src.pick(&[d.frames.len(), d.body_from.min(d.frames.len())]);
        d.frames.splice(at..at, (0..n).map(|_| Frame::new(0, Kind::All, vec![Msg::Raw(body.clone())])));
        ctx.class("more than 64 KiB in one place");
    }
    if ended {
        let mut e = end_frame(src);
        if src.chance(1, 6) {
            // in one frame with the end
            let t = src.pick(&rich::PAUSED_TEXTS).to_vec();
            e.msgs.insert(0, Msg::print(2, with_newline([b"a ".as_slice(), &t].concat())));
            paused = true;
        }
        d.frames.push(e);
    }
    let mut data = d.bytes();
    if src.chance(1, 6) {
        // the end message is there, but it is not the end
        ended = false;
        let t: &[u8] = *src.pick(&[b"\n".as_slice(), b"\0", b" ", b"\0\0", b"\x01", b"\x09\x06\0\0\0\0"]);
        data.extend_from_slice(t);
    }
    if !ended && src.chance(1, 8) {
        // only a part of it
        let t: &[u8] = *src.pick(&[
            b"\0\x06\x0b\0\0\0\x02EndOfDemo".as_slice(),
            b"\0\x06\x0b\0\0\0\x02EndOfDem",
            b"\x02EndOfDemo",
            b"EndOfDemo",
            b"EndOfDemo\n\0",
            b"\x02EndOfDemo\n",
            b"\x02endofdemo\0",
        ]);
        data.extend_from_slice(t);
    }
    ctx.demo = data.clone();
    ctx.class_if(aborted, "aborted");
    ctx.class_if(paused && !ended, "paused");
    ctx.class_if(paused && ended, "paused, but ended");
    ctx.class_if(!key.is_empty() && !aborted && !paused, "near misses only");
    if !key.is_empty() {
        key.extend_from_slice(&(data.len() as u32).to_le_bytes());
        key.push(u8::from(ended));
        ctx.nontrivial(&key);
    }
    ctx.sample(|| format!("{} bytes, aborted {aborted}, pause text {paused}, ended {ended}", data.len()));
    same("is_aborted", &api::is_aborted(ctx, &data)?, &aborted)?;
    same("is_paused", &api::is_paused(ctx, &data)?, &(paused && !ended))
}

/// The abort text at another level.
fn c19_level(src: &mut Src, ctx: &mut Ctx, mut d: Demo, text: Vec<u8>) -> Outcome {
    let id = *src.pick(&[1u8, 0, 3]);
    let f = Frame::new(dur(src), target(src), vec![Msg::print(id, text)]);
    // on its own: what was there before may hold a real one
    d.frames.retain(|f| {
        !f.msgs.iter().any(|m| matches!(m, Msg::Print { text, .. } if *text == rich::aborted_text()))
    });
    d.frames.push(f);
    let data = d.bytes();
    ctx.demo = data.clone();
    ctx.class("abort text at another level");
    ctx.nontrivial(&data);
    same("is_aborted", &api::is_aborted(ctx, &data)?, &false)
}
