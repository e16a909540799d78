//! C25: names, teams and slots are labels.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

use super::same;
use crate::engine::{Ctx, Outcome, Prop, Src};
use crate::gen::*;
use crate::wire::uni;
use crate::{api, ktx, rich};

pub static C25: Prop = Prop {
    id: "C25",
    rule: "a label was changed, and a count or a client of the recording bears one; distinct by both recordings",
    run: c25,
    quick: 25_000,
    thorough: 450_000,
    guided: 15_000,
    assumptions: &[
        "new names hold no obituary fragments, and different ones do not look the same",
        "the order of players with equal frags, and the color of a team that depends on it, may change",
    ],
    extra: None,
};

/// New labels for old ones.
#[derive(Default)]
struct Relabel {
    names: Vec<(Vec<u8>, Vec<u8>)>,
    teams: Vec<(Vec<u8>, Vec<u8>)>,
    slots: Vec<u8>,
    /// in the statistics
    texts: Vec<(String, String)>,
}

fn swap(b: &[u8], pairs: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    // tokens start with a bracket
    while i < b.len() {
        let hit = match b[i] {
            b'(' => pairs.iter().find(|(a, _)| b[i..].starts_with(a)),
            _ => None,
        };
        if let Some((a, new)) = hit {
            out.extend_from_slice(new);
            i += a.len();
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

impl Relabel {
    fn bytes(&self, b: &[u8]) -> Vec<u8> {
        swap(b, &self.names)
    }
    /// A result of the recording, as it should be with the new labels.
    fn text(&self, s: &str) -> String {
        let mut r = s.to_string();
        for (a, b) in &self.names {
            let a = uni(a);
            if r.contains(&a) {
                r = r.replace(&a, &uni(b));
            }
        }
        self.doc_text(&r)
    }
    fn doc_text(&self, s: &str) -> String {
        let mut r = s.to_string();
        for (a, b) in &self.texts {
            r = r.replace(a.as_str(), b);
        }
        r
    }
    fn team(&self, s: &str) -> String {
        match self.teams.iter().find(|(a, _)| uni(a) == s) {
            Some((_, b)) => uni(b),
            None => self.doc_text(s),
        }
    }
    fn slot(&self, n: u8) -> u8 {
        self.slots.get(n as usize).copied().unwrap_or(n)
    }
    fn client(&self, c: &api::Client) -> api::Client {
        api::Client {
            number: self.slot(c.number),
            name: self.text(&c.name),
            team: self.team(&c.team),
            ..c.clone()
        }
    }
    fn player(&self, p: &api::Player) -> api::Player {
        api::Player {
            name: self.text(&p.name),
            team: self.team(&p.team),
            ..p.clone()
        }
    }
}

fn bag<T: Debug>(v: &[T]) -> Vec<String> {
    let mut r: Vec<String> = v.iter().map(|x| format!("{x:?}")).collect();
    r.sort();
    r
}

/// Distinct texts for tokens.
fn new_names(src: &mut Src, n: usize, max: usize, taken: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut r: Vec<Vec<u8>> = vec![];
    let mut seen: BTreeSet<String> = taken.iter().map(|t| uni(t)).collect();
    while r.len() < n {
        let mut t = text(src, max);
        if src.chance(1, 4) && !r.is_empty() {
            // differs in little from another one
            t = src.pick(&r).clone();
            let k = src.draw(t.len() as u64) as usize;
            match src.draw(3) {
                0 => t[k] ^= 0x80,
                1 if t[k].is_ascii_alphabetic() => t[k] ^= 0x20,
                _ => t.truncate(k),
            }
            if t.is_empty() || t.iter().any(|b| matches!(b, 0 | b'\n' | b'"' | b'\\')) || !harmless(&t) {
                t = format!("n{}", r.len()).into_bytes();
            }
        }
        let mut k = 0;
        while !seen.insert(uni(&t)) {
            t = format!("n{}.{k}", r.len()).into_bytes();
            k += 1;
        }
        r.push(t);
    }
    r
}

fn c25(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let o = rich::Opts {
        roster: RosterOpts {
            max: *src.pick(&[4, 10, 20]),
            ..RosterOpts::default()
        },
        mix: Mix {
            frames: *src.pick(&[8, 20]),
            anon: 2,
            ..Mix::default()
        },
        stats: 0,
        ..rich::Opts::default()
    };
    // the recording, with tokens for names
    let made = start_tokens();
    let r = rich::rich(src, &o);
    let tokens = end_tokens(made);
    let mut a = r.demo;
    let spawned = !a.roster.is_empty();

    let mut l = Relabel::default();
    let which = src.draw(7) + 1; // at least one kind
    let (names, teams, slots) = (which & 1 != 0, which & 2 != 0, which & 4 != 0);
    if names {
        let new = new_names(src, tokens.len(), 31, &[]);
        l.names = tokens.into_iter().zip(new).collect();
    }
    if teams {
        let old: BTreeSet<Vec<u8>> = a.roster.iter().map(|c| c.team.clone()).filter(|t| !t.is_empty()).collect();
        let new = new_names(src, old.len(), 16, &[]);
        l.teams = old.into_iter().zip(new).collect();
        // teams that look the same are one
        let mut first: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for (a, b) in &mut l.teams {
            *b = first.entry(uni(a)).or_insert_with(|| b.clone()).clone();
        }
    }
    l.slots = (0..32).collect();
    if slots {
        src.shuffle(&mut l.slots);
    }

    // the other recording
    let mut b = a.clone();
    for c in &mut b.roster {
        c.name = l.bytes(&c.name);
        c.slot = l.slot(c.slot);
        if let Some((_, t)) = l.teams.iter().find(|(x, _)| *x == c.team) {
            c.team = t.clone();
        }
        let (name, team) = (c.name.clone(), c.team.clone());
        for (k, v) in &mut c.pairs {
            match k.as_slice() {
                b"name" => *v = name.clone(),
                b"team" => *v = team.clone(),
                _ => {}
            }
        }
        if c.userinfo().len() > 256 {
            return Ok(());
        }
    }
    b.roster.sort_by_key(|c| c.slot);
    if spawned {
        let at = a.frames.iter().position(|f| {
            f.msgs.iter().any(|m| matches!(m, Msg::Raw(b) if b.starts_with(b"\x09cmd spawn ")))
        });
        let Some(at) = at else { return Ok(()) };
        let mut again = spawn_frames(src, &b.roster);
        again.extend(filler(src));
        b.frames.splice(at..b.body_from, again);
        b.body_from = b.body_from.min(b.frames.len());
    }
    for f in &mut b.frames {
        for m in &mut f.msgs {
            match m {
                Msg::Print { text, .. } => *text = l.bytes(text),
                Msg::Frags { n, .. } | Msg::Ping { n, .. } => *n = l.slot(*n),
                Msg::Raw(_) => {}
            }
        }
    }
    if src.chance(1, 3) {
        // statistics
        let mut d = ktx::doc(src, o.doc);
        let mut old: BTreeMap<String, usize> = BTreeMap::new();
        let mut olds: BTreeMap<String, usize> = BTreeMap::new();
        for p in &mut d.players {
            let n = old.len();
            p.name = format!("(D{:04})", old.entry(p.name.clone()).or_insert(n));
            if !p.team.is_empty() {
                let n = olds.len();
                p.team = format!("(T{:04})", olds.entry(p.team.clone()).or_insert(n));
            }
        }
        d.teams.clear();
        d.text = ktx::render(src, &d);
        let fresh_label = |src: &mut Src, l: &Relabel| {
            let mut t = ktx::label(src);
            while t.is_empty() || l.texts.iter().any(|(_, b)| *b == t) || t.contains('(') {
                t = format!("{}x", l.texts.len());
                if !l.texts.iter().any(|(_, b)| *b == t) {
                    break;
                }
                t.push('y');
            }
            t
        };
        if names {
            for i in 0..old.len() {
                let t = fresh_label(src, &l);
                l.texts.push((format!("(D{i:04})"), t));
            }
        }
        if teams {
            for i in 0..olds.len() {
                let t = fresh_label(src, &l);
                l.texts.push((format!("(T{i:04})"), t));
            }
        }
        let mut other = d.text.clone();
        for (x, y) in &l.texts {
            other = other.replace(&format!("\"{x}\""), &ktx::quoted(y));
        }
        let (ka, kb) = (ktx::blocks(src, d.text.as_bytes()), ktx::blocks(src, other.as_bytes()));
        let g = rich::gaps(&a.frames, a.body_from);
        let from_end = a.frames.len() - *src.pick(&g);
        let ms: u64 = ka.iter().map(|f| u64::from(f.dur)).sum();
        let (at_a, at_b) = (a.frames.len() - from_end, b.frames.len() - from_end);
        a.frames.splice(at_a..at_a, ka);
        // as long as the others
        let mut kb = kb;
        for f in &mut kb {
            f.dur = 0;
        }
        let mut left = ms;
        for f in &mut kb {
            f.dur = left.min(255) as u8;
            left -= u64::from(f.dur);
        }
        if left > 0 {
            return Ok(());
        }
        b.frames.splice(at_b..at_b, kb);
        ctx.class("with statistics");
    }
    let (da, db) = (a.bytes(), b.bytes());
    ctx.demo = db.clone();
    ctx.class_if(names, "other names");
    ctx.class_if(teams, "other teams");
    ctx.class_if(slots, "other slots");
    ctx.sample(|| format!("{} clients, {} and {} bytes", a.roster.len(), da.len(), db.len()));

    // a new name may be the text of the message before
    let mut want: Vec<_> = api::prints(ctx, &da)?.into_iter().map(|(k, t)| (k, l.bytes(&t))).collect();
    want.dedup();
    same("prints", &api::prints(ctx, &db)?, &want)?;

    let fa = api::frags(ctx, &da)?;
    let want: BTreeMap<String, i32> = fa.iter().map(|(k, n)| (l.text(k), *n)).collect();
    same("frags", &api::frags(ctx, &db)?, &want)?;

    let ga = api::flags(ctx, &da)?;
    let mut want: BTreeMap<String, [u32; 7]> = BTreeMap::new();
    for (k, n) in &ga {
        // a name may be a repetition of another one
        let e = want.entry(l.text(k)).or_default();
        for (a, b) in e.iter_mut().zip(n) {
            *a += b;
        }
    }
    same("flag events", &api::flags(ctx, &db)?, &want)?;

    let pa = api::pings(ctx, &da)?.ok();
    let want: Option<BTreeMap<u8, u32>> =
        pa.as_ref().map(|p| p.iter().map(|(k, n)| (l.slot(*k), *n)).collect());
    same("pings", &api::pings(ctx, &db)?.ok(), &want)?;

    let ca = api::clients(ctx, &da)?.ok();
    let cb = api::clients(ctx, &db)?.ok();
    let want = ca.as_ref().map(|v| bag(&v.iter().map(|c| l.client(c)).collect::<Vec<_>>()));
    same("clients", &cb.as_ref().map(|v| bag(v)), &want)?;
    if !da.eq(&db) && (ca.as_ref().is_some_and(|v| !v.is_empty()) || !fa.is_empty() || !ga.is_empty()) {
        ctx.nontrivial(&[da.as_slice(), &db].concat());
    }
    let (x, y) = (api::player_names(ctx, &da)?.ok(), api::player_names(ctx, &db)?.ok());
    same("player names", &y.map(|v| bag(&v)), &x.map(|v| bag(&v.iter().map(|n| l.text(n)).collect::<Vec<_>>())))?;
    let (x, y) = (api::spectator_names(ctx, &da)?.ok(), api::spectator_names(ctx, &db)?.ok());
    same("spectator names", &y.map(|v| bag(&v)), &x.map(|v| bag(&v.iter().map(|n| l.text(n)).collect::<Vec<_>>())))?;
    let (x, y) = (api::team_names(ctx, &da)?.ok(), api::team_names(ctx, &db)?.ok());
    same("team names", &y.map(|v| bag(&v)), &x.map(|v| bag(&v.iter().map(|n| l.team(n)).collect::<Vec<_>>())))?;
    same("bots", &api::has_bot_players(ctx, &db)?.ok(), &api::has_bot_players(ctx, &da)?.ok())?;
    same("humans", &api::has_human_players(ctx, &db)?.ok(), &api::has_human_players(ctx, &da)?.ok())?;

    for (what, x, y) in [
        ("players", api::players(ctx, &da)?.ok(), api::players(ctx, &db)?.ok()),
        ("players_from_parsing", api::players_from_parsing(ctx, &da)?.ok(), api::players_from_parsing(ctx, &db)?.ok()),
    ] {
        let want = x.as_ref().map(|v| v.iter().map(|p| l.player(p)).collect::<Vec<_>>());
        same(what, &y.as_ref().map(|v| bag(v)), &want.as_ref().map(|v| bag(v)))?;
        let frags = |v: &Vec<api::Player>| v.iter().map(|p| p.frags).collect::<Vec<_>>();
        same(what, &y.as_ref().map(frags), &x.as_ref().map(frags))?;
    }
    let (x, y) = (api::teams(ctx, &da)?.ok(), api::teams(ctx, &db)?.ok());
    let key = |name: String, t: &api::Team, ps: Vec<api::Player>| (name, t.frags, t.ping, bag(&ps));
    let mut want: Option<Vec<_>> = x.as_ref().map(|v| {
        v.iter()
            .map(|t| key(l.team(&t.name), t, t.players.iter().map(|p| l.player(p)).collect()))
            .collect()
    });
    let mut got: Option<Vec<_>> = y.as_ref().map(|v| v.iter().map(|t| key(t.name.clone(), t, t.players.clone())).collect());
    for v in [&mut want, &mut got].into_iter().flatten() {
        v.sort();
    }
    same("teams", &got, &want)?;
    for t in x.iter().flatten() {
        let ps: Vec<api::Player> = t.players.iter().map(|p| l.player(p)).collect();
        for u in y.iter().flatten().filter(|u| u.name == l.team(&t.name) && u.players == ps) {
            same("team color", &u.color, &t.color)?;
        }
    }

    same("settings", &api::serverinfo_string(ctx, &db)?.ok(), &api::serverinfo_string(ctx, &da)?.ok())?;
    same("demo duration", &api::demo_duration(ctx, &db)?.ok(), &api::demo_duration(ctx, &da)?.ok())?;
    same("countdown", &api::countdown_duration(ctx, &db)?.ok(), &api::countdown_duration(ctx, &da)?.ok())?;
    same("match duration", &api::match_duration(ctx, &db)?.ok(), &api::match_duration(ctx, &da)?.ok())?;
    same("timestamp", &api::timestamp(ctx, &db)?.ok(), &api::timestamp(ctx, &da)?.ok())?;
    same("server", &api::server(ctx, &db)?.ok(), &api::server(ctx, &da)?.ok())?;
    same("aborted", &api::is_aborted(ctx, &db)?, &api::is_aborted(ctx, &da)?)?;
    same("paused", &api::is_paused(ctx, &db)?, &api::is_paused(ctx, &da)?)?;
    if da.len().min(db.len()) >= 1024 {
        same("valid", &api::is_valid(ctx, &db)?, &api::is_valid(ctx, &da)?)?;
    }
    Ok(())
}
