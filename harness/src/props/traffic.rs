//! Frame-wise traffic: prints, frags, pings, flags and durations.
use std::collections::BTreeMap;
use std::time::Duration;

use super::same;
use crate::engine::{Ctx, Outcome, Prop, Src};
use crate::gen::*;
use crate::wire::{self, Kind};
use crate::{api, ensure, fail, ktx, real, rich};

/// Once in a while more than 65535 frames, or a frame of more than 65535 bytes.
fn enlarge(src: &mut Src, d: &mut Demo, ctx: &mut Ctx) {
    match src.weighted(&[186, 8, 2, 4]) {
        1 => {
            let mut b = vec![48];
            b.resize(src.size(65_530, 70_000), 0x31);
            let f = Frame::new(dur(src), target(src), vec![Msg::Raw(b)]);
            rich::insert(src, d, vec![f]);
            ctx.class("a frame of more than 64 KiB");
        }
        2 => {
            let n = src.size(65_530, 66_000);
            let time = *src.pick(&[1, 255]);
            let one = Frame::new(time, Kind::All, vec![Msg::Raw(vec![1])]);
            rich::insert(src, d, vec![one; n]);
            ctx.class("more than 65535 frames");
        }
        3 => {
            // side data of that size, which takes its time
            let n = src.size(8_000, 70_000);
            let mut b = (n as u32).to_le_bytes().to_vec();
            b.extend_from_slice(&src.pick(&[7u16, 0, 1, 2, 8]).to_le_bytes());
            b.resize(n + 6, 0x31);
            let f = Frame::raw(dur(src), Kind::Hidden, b);
            rich::insert(src, d, vec![f]);
            ctx.class("a hidden block of more than 8000 bytes");
        }
        _ => {}
    }
}

fn small_roster() -> RosterOpts {
    RosterOpts {
        max: 8,
        ..RosterOpts::default()
    }
}

fn traffic(src: &mut Src, ctx: &mut Ctx, mix: &Mix, ro: &RosterOpts) -> Demo {
    let cs = roster(src, ro);
    let d = if src.chance(1, 3) {
        // no opening at all
        let frames = timeline(src, mix, &cs);
        Demo {
            frames,
            roster: vec![],
            body_from: 0,
        }
    } else {
        let info = usual_info(src);
        demo_with(src, Some(&infostring(&info)), cs, mix)
    };
    let mut d = d;
    enlarge(src, &mut d, ctx);
    d
}

fn kinds(ctx: &mut Ctx, d: &Demo) {
    ctx.class_if(d.frames.iter().any(|f| matches!(f.kind, Kind::Hidden)), "hidden frames");
    ctx.class_if(d.frames.iter().any(|f| matches!(f.kind, Kind::Set)), "set frames");
    ctx.class_if(d.frames.iter().any(|f| matches!(f.kind, Kind::Multi(_))), "multi-target frames");
    ctx.class_if(d.frames.iter().any(|f| matches!(f.kind, Kind::Bare(_))), "bare frames");
}

// ---------------------------------------------------------------- C04

pub static C04: Prop = Prop {
    id: "C04",
    rule: "at least two reported prints; distinct by their levels and texts",
    run: c04,
    quick: 120_000,
    thorough: 1_200_000,
    guided: 40_000,
    assumptions: &[
        "frames are well-formed; prints that do not open a frame are not console messages of interest",
        "real recordings are read back with a reference walker written from the MVD format",
    ],
    extra: None,
};

fn c04(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let (data, want) = if src.chance(1, 12) {
        match real::excerpt(src, 120) {
            Some(d) => {
                ctx.class("frames of a real recording");
                let w = reference_prints(&d);
                (d, w)
            }
            None => (vec![], vec![]),
        }
    } else {
        let mix = Mix {
            chat: 6,
            pings: 1,
            flags: 1,
            frames: 20,
            ..Mix::default()
        };
        let mut d = traffic(src, ctx, &mix, &small_roster());
        if src.chance(1, 60) {
            let mut t = text(src, 30);
            let n = src.size(1000, 70_000);
            while t.len() < n {
                let u = t.clone();
                t.extend(u);
            }
            let f = Frame::new(0, target(src), vec![Msg::print(2, t)]);
            rich::insert(src, &mut d, vec![f]);
            ctx.class("a very long print");
        }
        if src.chance(1, 400) {
            // prints in front of a lot of other messages
            let mut msgs = vec![Msg::print(2, text(src, 20)), Msg::print(3, text(src, 20))];
            msgs.push(Msg::Raw(vec![1; *src.pick(&[70_000, 140_000, 300_000, 1_100_000, 5_000_000])]));
            let f = Frame::new(0, target(src), msgs);
            rich::insert(src, &mut d, vec![f]);
            ctx.class("prints in a very large frame");
        }
        kinds(ctx, &d);
        ctx.class_if(
            d.frames.iter().any(|f| opening(f).count() > 1),
            "several prints open a frame",
        );
        (d.bytes(), model_prints(&d.frames))
    };
    ctx.demo = data.clone();
    ctx.class_if(want.is_empty(), "no print");
    if want.len() >= 2 {
        let key: Vec<u8> = want.iter().flat_map(|(l, t)| [l.as_bytes(), t].concat()).collect();
        ctx.nontrivial(&key);
    }
    ctx.sample(|| format!("{} bytes, {} prints, first: {:?}", data.len(), want.len(), want.first()));
    let got = api::prints(ctx, &data)?;
    same("prints", &got, &want)
}

pub fn reference_prints(d: &[u8]) -> Vec<(String, Vec<u8>)> {
    let mut r: Vec<(String, Vec<u8>)> = vec![];
    for s in wire::walk(d).iter().filter(|s| s.carries_messages()) {
        for (id, t) in wire::opening_prints(&d[s.body..s.end]) {
            let p = (wire::level(id).to_string(), t);
            if !p.1.is_empty() && r.last() != Some(&p) {
                r.push(p);
            }
        }
    }
    r
}

// ---------------------------------------------------------------- C05

pub static C05: Prop = Prop {
    id: "C05",
    rule: "at least two players with a count; distinct by the counts",
    run: c05,
    quick: 50_000,
    thorough: 1_000_000,
    guided: 40_000,
    assumptions: &[
        "player names contain no obituary phrase and no white space at the edges",
        "the obituary texts are those of the KTX server, pinned in the generator",
    ],
    extra: None,
};

fn c05(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mix = Mix {
        noise: 3,
        obits: 12,
        anon: 0,
        pings: 1,
        flags: 1,
        chat: 3,
        updates: 0,
        frames: 16,
    };
    let mut d = traffic(src, ctx, &mix, &small_roster());
    if src.chance(1, 150) {
        // more than a 16 bit counter holds
        let n = *src.pick(&[130usize, 300, 33_000, 66_000]);
        let a = text(src, 10);
        let (t, sem) = obituary(src, &a, b"victim");
        let per = *src.pick(&[1usize, 40]);
        let m = Msg::Print { id: 1, text: t, sem };
        let f = Frame::new(1, Kind::All, vec![m; per]);
        rich::insert(src, &mut d, vec![f; n / per]);
        ctx.class("hundreds of equal obituaries");
    }
    while src.chance(1, 3) {
        // what a server says around and during a match
        let t = src
            .pick(&[
                b"The match is over\n".as_slice(),
                b"The match has begun!\n",
                b"matchdate: 2024-04-26 16:59:12 CEST\n",
                b"Server is paused\n",
                b"a paused the game\n",
                b"Overtime!\n",
                b"1 minute remaining\n",
                b"Sudden death\n",
                b"a left the game with 3 frags\n",
                b"a entered the game\n",
                b"EndOfDemo",
                b"Match stopped by majority vote\n",
                b"frags\n",
            ])
            .to_vec();
        let mut msgs = vec![Msg::print(*src.pick(&[2u8, 2, 1, 3, 0]), t)];
        if src.chance(1, 3) {
            msgs.push(Msg::Raw(b"\x34status\0Standby\0".to_vec()));
        }
        let f = Frame::new(dur(src), target(src), msgs);
        rich::insert(src, &mut d, vec![f]);
        ctx.class("server messages");
    }
    let mut want = model_frags(&d.frames, &d.roster);
    // the phrases one by one, so that every one of them is seen
    let which = src.draw(100) as usize;
    if let Some((t, who, n)) = phrase(which) {
        let f = Frame::new(0, Kind::All, vec![Msg::print(1, t)]);
        d.frames.insert(d.body_from, f);
        *want.entry(who).or_default() += n;
    }
    let data = d.bytes();
    ctx.demo = data.clone();
    for f in &d.frames {
        for m in opening(f) {
            match m {
                Msg::Print { id: 1, sem: Sem::Frag(_, n), .. } => ctx.class(match n {
                    1 => "kill",
                    -2 => "suicide command",
                    _ => "own death or team kill",
                }),
                Msg::Print { sem: Sem::Frag(..), .. } => ctx.class("obituary text at another level"),
                _ => {}
            }
        }
    }
    ctx.classes.sort();
    ctx.classes.dedup();
    if want.len() >= 2 {
        ctx.nontrivial(format!("{want:?}").as_bytes());
    }
    ctx.sample(|| format!("{} bytes, expected {want:?}", data.len()));
    let got = api::frags(ctx, &data)?;
    same("frags", &got, &want)
}

/// Obituary number `i` between two plain names.
fn phrase(i: usize) -> Option<(Vec<u8>, String, i32)> {
    let mut all: Vec<(String, &str, i32)> = vec![];
    for p in DEATHS.iter().chain(SUICIDES_BY_WEAPON).chain(TEAMKILLS) {
        all.push((format!("Aa{p}\n"), "Aa", -1));
    }
    all.push((format!("Aa{SUICIDE}\n"), "Aa", -2));
    for (p, s) in KILLER_FIRST {
        all.push((format!("Aa{p}Bb{s}\n"), "Aa", 1));
    }
    for (p, s) in VICTIM_FIRST {
        all.push((format!("Aa{p}Bb{s}\n"), "Bb", 1));
    }
    let (t, w, n) = all.get(i)?;
    Some((t.clone().into_bytes(), w.to_string(), *n))
}

// ---------------------------------------------------------------- C06

pub static C06: Prop = Prop {
    id: "C06",
    rule: "at least one anonymous team kill that is charged; distinct by roster, charges and traffic",
    run: c06,
    quick: 120_000,
    thorough: 1_000_000,
    guided: 40_000,
    assumptions: &[
        "victims have a team, names are unique, spectators get no score updates",
        "the look-ahead window is the rest of the frame and the opening of the next two frames with messages",
    ],
    extra: None,
};

fn c06(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mix = Mix {
        noise: 1,
        obits: 1,
        anon: 8,
        pings: 1,
        flags: 0,
        chat: 1,
        updates: 1,
        frames: 8,
    };
    let ro = RosterOpts {
        min: 2,
        max: 12,
        ..RosterOpts::default()
    };
    let mut cs = roster(src, &ro);
    if src.chance(2, 3) {
        // two teams
        for c in &mut cs {
            let t: &[u8] = *src.pick(&[b"red", b"blu"]);
            let room = c.userinfo().len() < 240;
            match c.pairs.iter_mut().find(|(k, _)| k == b"team") {
                Some((_, v)) => *v = t.to_vec(),
                None if room => c.pairs.insert(0, (b"team".to_vec(), t.to_vec())),
                None => continue,
            }
            c.team = t.to_vec();
        }
    }
    let info = usual_info(src);
    let mut d = demo_with(src, Some(&infostring(&info)), cs, &mix);
    if src.chance(1, 40) {
        // no roster: nobody can be charged
        d.frames.drain(..d.body_from);
        d.roster.clear();
        d.body_from = 0;
        ctx.class("no roster");
    }
    let data = d.bytes();
    ctx.demo = data.clone();
    let (mut charged, mut free) = (0, 0);
    let mut key = vec![];
    for (i, f) in d.frames.iter().enumerate() {
        for m in opening(f) {
            if let Msg::Print { id: 1, sem: Sem::AnonTk(v), .. } = m {
                match anon_killer(&d.frames, i, v, &d.roster) {
                    Some(k) => {
                        charged += 1;
                        key.extend(k);
                    }
                    None => free += 1,
                }
            }
        }
    }
    ctx.class_if(charged > 0, "charged");
    ctx.class_if(free > 0, "nobody charged");
    ctx.class_if(d.roster.iter().enumerate().any(|(i, c)| i != c.slot as usize), "slot gaps");
    if charged > 0 {
        key.extend_from_slice(&data.len().to_le_bytes());
        ctx.nontrivial(&key);
    }
    let want = model_frags(&d.frames, &d.roster);
    ctx.sample(|| format!("{} clients, {charged} charged, {free} not; expected {want:?}", d.roster.len()));
    let got = api::frags(ctx, &data)?;
    same("frags", &got, &want)
}

// ---------------------------------------------------------------- C07

pub static C07: Prop = Prop {
    id: "C07",
    rule: "more than eight frames with ping updates, or at least two players; distinct by the means",
    run: c07,
    quick: 150_000,
    thorough: 1_200_000,
    guided: 40_000,
    assumptions: &["ping updates come in pairs with packet loss updates, as servers send them"],
    extra: None,
};

fn c07(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let (data, want, frames) = if src.chance(1, 15) {
        let Some(d) = real::excerpt(src, 200) else {
            return Ok(());
        };
        ctx.class("frames of a real recording");
        let (w, n) = reference_pings(&d);
        (d, w, n)
    } else {
        let mix = Mix {
            noise: 3,
            obits: 1,
            anon: 0,
            pings: 6,
            flags: 1,
            chat: 1,
            updates: 0,
            frames: 14,
        };
        let mut d = traffic(src, ctx, &mix, &small_roster());
        kinds(ctx, &d);
        if src.chance(1, 100) {
            // one frame with far more updates than players
            let n = if src.chance(1, 12) { 66_000 } else { *src.pick(&[300usize, 700, 1200, 5000]) };
            let (slot, high) = (src.byte(), 65535 - src.draw(3) as u16);
            let mut ms = vec![
                Msg::Ping {
                    n: slot,
                    ping: high,
                    pl: 0,
                };
                n
            ];
            if let Msg::Ping { ping, .. } = &mut ms[0] {
                *ping -= 1 + src.draw(2) as u16;
            }
            d.frames.insert(d.body_from, Frame::new(0, Kind::All, ms));
            ctx.class("hundreds of updates in one frame");
        }
        let n = d
            .frames
            .iter()
            .filter(|f| matches!(f.messages().first(), Some(Msg::Ping { .. })))
            .count();
        (d.bytes(), model_pings(&d.frames), n)
    };
    ctx.demo = data.clone();
    ctx.class_if(want.is_none(), "no ping update");
    ctx.class_if(frames > 8, "more than eight samples");
    if frames > 8 || want.as_ref().is_some_and(|w| w.len() > 1) {
        ctx.nontrivial(format!("{want:?}").as_bytes());
    }
    ctx.sample(|| format!("{frames} frames with pings, expected {want:?}"));
    let got = api::pings(ctx, &data)?;
    same("pings", &got.ok(), &want)
}

fn reference_pings(d: &[u8]) -> (Option<BTreeMap<u8, u32>>, usize) {
    let mut sums: BTreeMap<u8, (u64, u64)> = BTreeMap::new();
    let mut n = 0;
    for s in wire::walk(d).iter().filter(|s| s.carries_messages()) {
        let ps = wire::opening_pings(&d[s.body..s.end]);
        if ps.is_empty() {
            continue;
        }
        n += 1;
        if n > 8 {
            continue;
        }
        for (p, v) in ps {
            let e = sums.entry(p).or_default();
            e.0 += u64::from(v);
            e.1 += 1;
        }
    }
    if sums.is_empty() {
        return (None, n);
    }
    (Some(sums.iter().map(|(k, (s, c))| (*k, (s / c) as u32)).collect()), n)
}

// ---------------------------------------------------------------- C13, C14

pub fn near(what: &str, got: Duration, ms: u64) -> Outcome {
    let want = Duration::from_millis(ms);
    ensure!(got == want, "{what}: got {got:?}, expected {want:?}");
    Ok(())
}

#[derive(Debug)]
struct Times {
    demo: u64,
    countdown: Option<u64>,
    marks: u8,
}

fn times(frames: &[Frame], hoony: bool) -> Times {
    let end = last_mark(frames, MATCH_OVER).or(last_mark(frames, STANDBY));
    let begin = first_mark(frames, MATCHDATE);
    Times {
        demo: model_ms(frames, end),
        countdown: if hoony {
            Some(0)
        } else {
            begin.map(|b| model_ms(frames, Some(b)))
        },
        marks: frames.iter().fold(0, |a, f| a | f.marks),
    }
}

fn timed(src: &mut Src, ctx: &mut Ctx, stats: u64, odd: bool) -> rich::Rich {
    let o = rich::Opts {
        roster: RosterOpts {
            max: 3,
            ..RosterOpts::default()
        },
        mix: Mix {
            noise: 10,
            obits: 1,
            anon: 0,
            pings: 1,
            flags: 1,
            chat: 2,
            updates: 0,
            frames: 14,
        },
        stats,
        doc: ktx::DocOpts {
            players: 2,
            odd_durations: odd,
            ..ktx::DocOpts::default()
        },
        ..rich::Opts::default()
    };
    let mut r = rich::rich(src, &o);
    if src.chance(1, 4) {
        // marker texts that do not count
        let t: &[u8] = *src.pick(&[
            b"The match is ove\n".as_slice(),
            b"the match is over\n",
            b"matchdat: 2024-04-26 16:59:12 CEST\n",
            b"Standby\n",
            b"\xf4he match is over\n",
            b"The match is  over\n",
            b"The match was over\n",
            b" matchdate: 2024-04-26 16:59:12 CEST\n",
            b"Matchdate: 2024-04-26 16:59:12 CEST\n",
            b"matchdate:2024-04-26 16:59:12 CEST\n",
            b"a: matchdate: 2024-04-26 16:59:12 CEST\n",
            b"status\\Standby\n",
        ]);
        let f = Frame::new(dur(src), target(src), vec![Msg::print(2, t.to_vec())]);
        rich::insert(src, &mut r.demo, vec![f]);
        // the date is announced at the highest level
        let f = Frame::new(
            dur(src),
            target(src),
            vec![Msg::print(*src.pick(&[3u8, 1, 0, 4]), b"matchdate: 2024-04-26 16:59:12 CEST\n".to_vec())],
        );
        rich::insert(src, &mut r.demo, vec![f]);
        let f = Frame::new(dur(src), Kind::All, vec![Msg::Raw(b"\x34status\0Countdown\0".to_vec())]);
        rich::insert(src, &mut r.demo, vec![f]);
        ctx.class("texts close to markers");
    }
    enlarge(src, &mut r.demo, ctx);
    kinds(ctx, &r.demo);
    ctx.class_if(r.hoony, "hoonymode");
    r
}

fn torn(src: &mut Src, data: &mut Vec<u8>) {
    if src.chance(1, 4) {
        // a frame that never ends
        let t = [src.byte(), 6, 200, 0, 0, 0, 48, 1, 2];
        let n = src.size(1, t.len());
        data.extend_from_slice(&t[..n]);
    }
}

pub static C13: Prop = Prop {
    id: "C13",
    rule: "at least one marker and a non-zero demo duration; distinct by durations",
    run: c13,
    quick: 150_000,
    thorough: 1_000_000,
    guided: 40_000,
    assumptions: &[],
    extra: None,
};

fn c13(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let (data, t) = if src.draw(30_000) == 29_999 {
        // more milliseconds than 32 bits hold
        let n: u64 = (1 << 32) / 255 + src.draw(1000);
        let mut d = [255, 7].repeat(n as usize);
        let mut ms = n * 255;
        let countdown = src.chance(1, 2).then(|| {
            let f = rich::marker_frame(src, MATCHDATE);
            wire::put_frame(&mut d, f.dur, &f.kind, &f.body());
            ms += u64::from(f.dur);
            ms
        });
        ctx.class("more than 2^32 milliseconds");
        (d, Times { demo: ms, countdown, marks: countdown.map_or(0, |_| MATCHDATE) })
    } else if src.chance(1, 12) {
        let Some(mut d) = real::excerpt(src, 200) else {
            return Ok(());
        };
        ctx.class("frames of a real recording");
        let t = reference_times(&d);
        torn(src, &mut d);
        (d, t)
    } else {
        let r = timed(src, ctx, 10, false);
        let mut d = r.demo.bytes();
        torn(src, &mut d);
        (d, times(&r.demo.frames, r.hoony))
    };
    ctx.demo = data.clone();
    ctx.class(match (t.marks & MATCH_OVER != 0, t.marks & STANDBY != 0) {
        (true, true) => "match over and standby",
        (true, false) => "match over",
        (false, true) => "standby",
        _ => "no end marker",
    });
    ctx.class_if(t.countdown.is_none(), "no countdown");
    if t.marks != 0 && t.demo > 0 {
        ctx.nontrivial(format!("{t:?}").as_bytes());
    }
    ctx.sample(|| format!("{} bytes, {t:?} ms", data.len()));
    match api::demo_duration(ctx, &data)? {
        Ok(d) => near("demo_duration", d, t.demo)?,
        Err(e) => fail!("demo_duration fails: {e}"),
    }
    match (api::countdown_duration(ctx, &data)?, t.countdown) {
        (Ok(d), Some(ms)) => near("countdown_duration", d, ms)?,
        (Err(_), None) => {}
        (got, want) => fail!("countdown_duration: got {got:?}, expected {want:?} ms"),
    }
    Ok(())
}

fn reference_times(d: &[u8]) -> Times {
    let spans = wire::walk(d);
    let until = |o: Option<usize>| -> u64 {
        let o = o.unwrap_or(d.len());
        spans.iter().filter(|s| s.start < o).map(|s| u64::from(s.dur)).sum()
    };
    let over = wire::find_last(d, b"The match is over");
    let standby = wire::find_last(d, b"4status\0Standby\0");
    let date = wire::find(d, b"\x08\x02matchdate: ");
    let head = &d[..d.len().min(1280)];
    let hoony = wire::find(head, b"fullserverinfo \"").is_some_and(|i| {
        let s = &head[i + 16..];
        let s = &s[..s.iter().position(|c| *c == b'"').unwrap_or(0)];
        wire::find(s, b"\\mode\\hoonymode").is_some()
    });
    Times {
        demo: until(over.or(standby)),
        countdown: if hoony { Some(0) } else { date.map(|o| until(Some(o))) },
        marks: over.map_or(0, |_| MATCH_OVER) | standby.map_or(0, |_| STANDBY) | date.map_or(0, |_| MATCHDATE),
    }
}

pub static C14: Prop = Prop {
    id: "C14",
    rule: "a non-zero match duration from either source; distinct by source and durations",
    run: c14,
    quick: 120_000,
    thorough: 1_000_000,
    guided: 40_000,
    assumptions: &["durations from statistics are equal up to a microsecond plus 1e-9 of the value"],
    extra: None,
};

fn c14(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut r = timed(src, ctx, 60, true);
    let mut usable = None;
    let mut any_stats = false;
    if let Some(d) = &r.doc {
        any_stats = true;
        usable = d.duration.as_ref().and_then(|t| {
            let v: f64 = t.parse().ok()?;
            (v.is_finite() && v >= 0.0 && v < 1e12).then_some(v)
        });
        if src.chance(1, 12) {
            // the last block never made it
            let i = r.demo.frames.iter().rposition(|f| f.kind == Kind::Hidden && f.raw.len() > 8 && f.raw[4] == 3);
            if let Some(i) = i {
                r.demo.frames.truncate(i);
                usable = None;
                any_stats = false;
                ctx.class("statistics cut short");
            }
        }
    }
    let t = times(&r.demo.frames, r.hoony);
    let mut data = r.demo.bytes();
    torn(src, &mut data);
    ctx.demo = data.clone();
    let seek = t.demo.checked_sub(t.countdown.unwrap_or(0));
    let from_stats = !r.hoony && usable.is_some();
    ctx.class(match (from_stats, seek) {
        (true, _) => "from statistics",
        (false, Some(_)) => "from frame times",
        (false, None) => "impossible",
    });
    ctx.class_if(any_stats && usable.is_none(), "unusable duration in statistics");
    if from_stats || seek.is_some_and(|s| s > 0) {
        ctx.nontrivial(format!("{from_stats} {usable:?} {t:?}").as_bytes());
    }
    ctx.sample(|| format!("hoonymode {}, statistics {:?}, {t:?} ms", r.hoony, r.doc.as_ref().map(|d| &d.duration)));

    let s = api::match_duration_from_seeking(ctx, &data)?;
    seek_is("match_duration_from_seeking", s, seek)?;
    let k = api::match_duration_from_ktxstats(ctx, &data)?;
    match (&k, usable) {
        (Ok(d), Some(v)) => secs_is("match_duration_from_ktxstats", *d, v)?,
        (Err(_), None) => {}
        (got, want) => fail!("match_duration_from_ktxstats: got {got:?}, expected {want:?} s"),
    }
    let m = api::match_duration(ctx, &data)?;
    if from_stats {
        match m {
            Ok(d) => secs_is("match_duration", d, usable.unwrap_or(0.0))?,
            Err(e) => fail!("match_duration fails: {e}"),
        }
    } else {
        seek_is("match_duration", m, seek)?;
    }
    Ok(())
}

fn secs_is(what: &str, got: Duration, secs: f64) -> Outcome {
    ensure!(
        (got.as_secs_f64() - secs).abs() <= 1e-6 + secs * 1e-9,
        "{what}: got {got:?}, expected {secs} s"
    );
    Ok(())
}

fn seek_is(what: &str, got: Result<Duration, String>, ms: Option<u64>) -> Outcome {
    match (got, ms) {
        (Ok(d), Some(ms)) => {
            let want = Duration::from_millis(ms);
            ensure!(d == want, "{what}: got {d:?}, expected {want:?}");
        }
        // an error or zero
        (Err(_), None) => {}
        (Ok(d), None) if d.is_zero() => {}
        (got, want) => fail!("{what}: got {got:?}, expected {want:?} ms"),
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

/// A flag message with a mistake in it.
fn no_flag(src: &mut Src, who: Vec<u8>) -> Option<Vec<u8>> {
    let mut t = latin1(src.pick(FLAGS).1);
    let body = t.len() - 1;
    match src.draw(6) {
        0 => {
            let at = src.size(0, body - 1);
            t.remove(at);
        }
        1 => {
            let at = src.size(0, body - 1);
            t[at] = *src.pick(b"xX .!_");
        }
        2 => {
            let at = src.size(0, body - 1);
            t[at] ^= *src.pick(&[0x80, 0x20]);
        }
        3 => {
            // another word
            let mut words: Vec<&[u8]> = t[..body].split(|c| *c == b' ').collect();
            let i = src.size(1, words.len() - 1);
            match src.draw(3) {
                0 => words[i] = *src.pick(&[b"post".as_slice(), b"the", b"a", b"flag", b"carrier", b"enemy", b"KEY", b"\xd2\xc5\xc4's"]),
                1 => words.insert(i, *src.pick(&[b"not".as_slice(), b"really", b"the", b""])),
                _ => {
                    words.remove(i);
                }
            }
            t = words.join(&b' ');
            t.push(b'\n');
        }
        4 => {
            let n = src.size(1, 4);
            t.truncate(body - n);
            t.push(b'\n');
        }
        _ => {
            let more: &[u8] = *src.pick(&[b"!".as_slice(), b".", b" ", b" again", b" (1)"]);
            t.truncate(body);
            t.extend_from_slice(more);
            t.push(b'\n');
        }
    }
    t = [who, t].concat();
    let seen = wire::uni(&t);
    let real = FLAGS.iter().any(|(_, f)| seen.contains(&wire::uni(&latin1(f))));
    (!real && !t.contains(&0)).then_some(t)
}

pub static C20: Prop = Prop {
    id: "C20",
    rule: "at least three flag events or a split message; distinct by the counters",
    run: c20,
    quick: 50_000,
    thorough: 1_000_000,
    guided: 40_000,
    assumptions: &[
        "the flag texts are those of the KTX server, pinned in the generator",
        "messages before the prints of a frame contain no byte that looks like a print",
        "the counters are private: they are read from the derived debug form",
    ],
    extra: None,
};

fn c20(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mix = Mix {
        noise: 3,
        obits: 1,
        anon: 0,
        pings: 1,
        flags: 10,
        chat: 2,
        updates: 0,
        frames: 14,
    };
    let mut d = traffic(src, ctx, &mix, &small_roster());
    if src.chance(1, 150) {
        let who = text(src, 12);
        let ms = flag_msgs(src, &[who]);
        let per = *src.pick(&[1usize, 50]);
        let n = *src.pick(&[200usize, 300, 33_000, 66_000]);
        let msgs: Vec<Msg> = (0..per).flat_map(|_| ms.clone()).collect();
        let f = Frame::new(1, Kind::All, msgs);
        rich::insert(src, &mut d, vec![f; n / per]);
        ctx.class("hundreds of equal events");
    }
    while src.chance(1, 3) {
        // almost a flag message
        let who = text(src, 12);
        let Some(t) = no_flag(src, who) else { break };
        let m = Msg::print(2, t);
        let f = Frame::new(dur(src), target(src), vec![m]);
        rich::insert(src, &mut d, vec![f]);
        ctx.class("close to a flag message");
    }
    let mut want = model_flags(&d.frames);
    let which = src.draw(50) as usize;
    if let Some((k, t)) = FLAGS.get(which) {
        let f = Frame::new(0, Kind::All, vec![Msg::print(2, [b"Aa".as_slice(), &latin1(t)].concat())]);
        d.frames.insert(d.body_from, f);
        want.entry("Aa".to_string()).or_default()[*k] += 1;
    }
    let data = d.bytes();
    ctx.demo = data.clone();
    let total: u32 = want.values().flatten().sum();
    let split = d.frames.iter().any(|f| {
        f.messages().windows(2).any(|w| {
            matches!(&w[1], Msg::Print { id: 2, text, sem: Sem::Flag(..) } if text.starts_with(b" "))
        })
    });
    ctx.class_if(split, "split messages");
    ctx.class_if(
        d.frames.iter().any(|f| {
            let n = f.messages().iter().filter(|m| matches!(m, Msg::Print { id: 2, sem: Sem::Flag(..), .. }));
            n.count() > 1
        }),
        "several events in one frame",
    );
    ctx.class_if(
        d.frames.iter().any(|f| {
            f.messages().iter().any(|m| matches!(m, Msg::Print { id, sem: Sem::Flag(..), .. } if *id != 2))
        }),
        "flag text at another level",
    );
    if total >= 3 || split {
        ctx.nontrivial(format!("{want:?}").as_bytes());
    }
    ctx.sample(|| format!("{total} events, expected {want:?} ({FLAG_FIELDS:?})"));
    let got = api::flags(ctx, &data)?;
    same("flag events", &got, &want)
}
