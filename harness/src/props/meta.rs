//! Relations between several calls or several recordings.
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};

use mvdparser::all as m;
use mvdparser::KtxstatsV3;

use super::{differs, same};
use crate::engine::{call, set_current, Ctx, Fail, Outcome, Prop, Src, STACK};
use crate::gen::*;
use crate::ktx::DocOpts;
use crate::wire;
use crate::{api, ensure, fail, real, rich};

/// Recordings with a bit of everything, real ones and damaged ones.
pub fn anything(src: &mut Src, ctx: &mut Ctx) -> Vec<u8> {
    let mut data = match src.weighted(&[8, 2]) {
        0 => {
            let o = rich::Opts {
                doc: DocOpts {
                    players: 8,
                    odd_durations: true,
                    ..DocOpts::default()
                },
                roster: RosterOpts {
                    max: 12,
                    unique_names: src.chance(3, 4),
                    ..RosterOpts::default()
                },
                ..rich::Opts::default()
            };
            rich::rich(src, &o).demo.bytes()
        }
        _ => {
            ctx.class("frames of a real recording");
            real::excerpt(src, 60).unwrap_or_default()
        }
    };
    if src.chance(1, 3) {
        damage(src, &mut data);
        ctx.class("damaged");
    }
    data
}

/// Random edits that keep the rest recognisable.
pub fn damage(src: &mut Src, data: &mut Vec<u8>) {
    while src.chance(2, 3) && !data.is_empty() {
        let n = data.len();
        let i = src.size(0, n - 1);
        match src.weighted(&[4, 2, 2, 2, 1, 1, 3]) {
            0 => data[i] ^= 1 << src.draw(8),
            1 => data[i] = src.byte(),
            2 => {
                let k = src.size(1, 40).min(n - i);
                data.drain(i..i + k);
            }
            3 => {
                let k = src.size(1, 40).min(n - i);
                let c = data[i..i + k].to_vec();
                let j = src.size(0, n);
                data.splice(j..j, c);
            }
            4 => data.truncate(i),
            6 => near_marker(src, data),
            _ => {
                let b = src.size(1, 30);
                let b = src.bytes(b);
                data.splice(i..i, b);
            }
        }
    }
}

/// Texts that functions look for.
const MARKERS: &[&[u8]] = &[
    b"matchdate: ",
    b"fullserverinfo \"",
    b"\x09cmd spawn",
    b"\\name\\",
    b"\\team\\",
    b"color\\",
    b"\\mode\\",
    b"epoch\\",
    b"serverdemo\\",
    b"{\"version\": ",
    b"\"duration\": ",
    b"\"bot\": {",
    b"\"players\": [",
    b"EndOfDemo",
    b" flag!",
    b"teammate",
    b"The match is over",
    b"4status\0Standby\0",
    b"Server is paused",
    b"paused the game",
];

/// A few bytes right behind, within or in front of a text that functions look for.
pub fn near_marker(src: &mut Src, data: &mut Vec<u8>) {
    let start = src.draw(MARKERS.len() as u64) as usize;
    let Some((m, at)) = (0..MARKERS.len())
        .map(|i| MARKERS[(start + i) % MARKERS.len()])
        .find_map(|m| wire::find(data, m).map(|at| (m, at)))
    else {
        return;
    };
    let reach = *src.pick(&[1, 3, 12, 30]);
    let at = match src.weighted(&[6, 1, 1]) {
        0 => at + m.len() + src.size(0, reach),
        1 => at + src.size(0, m.len()),
        _ => at.saturating_sub(src.size(1, reach)),
    };
    let at = at.min(data.len());
    let one = [src.byte()];
    let with: &[u8] = *src.pick(&[
        one.as_slice(),
        b"\xc3\xa9",
        b"\xe2\x80\xa2",
        b"\xf0\x9f\xa6\x80",
        b"\xc3",
        b"\\",
        b"\\\\",
        b"\"",
        b"\n",
        b"\0",
        b" ",
        b"-",
        b"+",
        b".",
        b"e9",
        m,
        b"",
    ]);
    let end = match src.weighted(&[3, 2]) {
        // the same length
        0 => (at + with.len()).min(data.len()),
        _ => (at + src.size(0, 3)).min(data.len()),
    };
    data.splice(at..end, with.iter().copied());
}

fn compare(what: &str, got: &[String], want: &[String]) -> Outcome {
    for (g, w) in got.iter().zip(want) {
        if g != w {
            return Err(Fail(differs(what, g, w)));
        }
    }
    ensure!(got.len() == want.len(), "{what}: {} results, not {}", got.len(), want.len());
    Ok(())
}

fn useful(snap: &[String]) -> usize {
    snap.iter()
        .filter(|s| !s.contains("Err(") && !s.ends_with(": false") && !s.ends_with("[]"))
        .count()
}

// ---------------------------------------------------------------- C02

pub static C02: Prop = Prop {
    id: "C02",
    rule: "at least ten functions give a result that is neither an error nor empty; distinct by the recording",
    run: c02,
    quick: 5_000,
    thorough: 120_000,
    guided: 3_000,
    assumptions: &["maps are compared by content: their iteration order is not part of the result"],
    extra: None,
};

/// All functions in some order; results in the usual order.
fn shuffled(ctx: &mut Ctx, d: &[u8], order: &[usize]) -> Result<Vec<String>, Fail> {
    let mut r = vec![String::new(); api::SNAP];
    for i in order {
        r[*i] = api::snap_one(ctx, d, *i)?;
    }
    Ok(r)
}

/// The same recording with other digits or letters in one to three places.
fn relabelled(src: &mut Src, data: &[u8]) -> Vec<u8> {
    let mut o = data.to_vec();
    let texts: [&[u8]; 8] = [
        b"fullserverinfo",
        b"\\name\\",
        b"matchdate: ",
        b"\x08\x02",
        b"\"duration\":",
        b"\"players\":",
        b"\x08\x01",
        b"\x03\x35",
    ];
    for _ in 0..1 + src.draw(3) {
        if o.is_empty() {
            break;
        }
        let t = *src.pick(&texts);
        let all: Vec<usize> = o.windows(t.len()).enumerate().filter(|(_, w)| *w == t).map(|(i, _)| i).collect();
        let from = match src.weighted(&[3, 1]) {
            0 if !all.is_empty() => *src.pick(&all) + t.len() + src.draw(60) as usize,
            _ => src.size(0, o.len() - 1),
        };
        let at = (from..o.len()).find(|i| o[*i].is_ascii_alphanumeric());
        if let Some(at) = at {
            o[at] = match o[at] {
                b'0'..=b'8' | b'a'..=b'y' | b'A'..=b'Y' => o[at] + 1,
                c => c - 1,
            };
        }
    }
    o
}

fn fresh_process(data: &[u8], env: &[(&str, &str)], cwd: &str) -> Result<Vec<String>, Fail> {
    let exe = std::env::current_exe().map_err(|e| Fail(format!("no path of the harness: {e}")))?;
    let mut c = Command::new(exe);
    c.arg("snap").env_clear().current_dir(cwd);
    for (k, v) in env {
        c.env(k, v);
    }
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let broken = |e: std::io::Error| -> ! {
        eprintln!("harness error: fresh process: {e}");
        std::process::exit(2);
    };
    let mut p = c.spawn().unwrap_or_else(|e| broken(e));
    let mut stdin = p.stdin.take().unwrap();
    // the child reads everything before it answers
    stdin.write_all(data).unwrap_or_else(|e| broken(e));
    drop(stdin);
    let out = p.wait_with_output().unwrap_or_else(|e| broken(e));
    let text = String::from_utf8_lossy(&out.stdout);
    if !out.status.success() {
        return Err(Fail(format!(
            "a fresh process fails ({}): {} {}",
            out.status,
            text.trim(),
            String::from_utf8_lossy(&out.stderr).trim()
        )));
    }
    Ok(text.lines().map(str::to_string).collect())
}

/// The child's side.
pub fn snap_main() -> i32 {
    use std::io::Read;
    let mut d = vec![];
    if std::io::stdin().read_to_end(&mut d).is_err() {
        return 2;
    }
    let mut ctx = Ctx::default();
    let src = Src::replay(vec![]);
    set_current("C02", &src);
    match api::snapshot(&mut ctx, &d) {
        Ok(v) => {
            let mut out = v.join("\n");
            out.push('\n');
            let _ = std::io::stdout().write_all(out.as_bytes());
            0
        }
        Err(f) => {
            println!("{}", f.0);
            3
        }
    }
}

/// A short piece of a recording that starts or ends around a marker, at every address modulo 16.
fn placed(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut data = anything(src, ctx);
    let start = src.draw(MARKERS.len() as u64) as usize;
    let found = (0..MARKERS.len())
        .map(|i| MARKERS[(start + i) % MARKERS.len()])
        .find_map(|m| wire::find(&data, m).map(|at| (at, at + m.len())));
    if let Some((from, to)) = found {
        let before = match src.weighted(&[3, 1]) {
            0 => src.size(0, 17),
            _ => src.size(0, 200),
        };
        let behind = match src.weighted(&[2, 3]) {
            0 => src.size(0, 17),
            _ => src.size(0, 400),
        };
        data.truncate(to + behind);
        data.drain(..from.saturating_sub(before));
    }
    data.truncate(1500);
    ctx.demo = data.clone();
    ctx.class("a short piece at all alignments");
    ctx.nontrivial(&data);
    ctx.sample(|| format!("{} bytes at all alignments", data.len()));
    let base = api::snapshot(ctx, &data)?;
    let mut buf = vec![0u8; data.len() + 32];
    let first = buf.as_ptr().align_offset(16);
    for shift in 0..16 {
        let at = first + shift;
        let around = src.byte();
        buf.fill(around);
        buf[at..at + data.len()].copy_from_slice(&data);
        let s = api::snapshot(ctx, &buf[at..at + data.len()])?;
        compare(&format!("at an address that is {shift} modulo 16"), &s, &base)?;
    }
    Ok(())
}

fn c02(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    if src.chance(1, 8) {
        return placed(src, ctx);
    }
    let data = anything(src, ctx);
    ctx.demo = data.clone();
    let base = api::snapshot(ctx, &data)?;
    if useful(&base) >= 10 {
        ctx.nontrivial(&data);
    }
    ctx.sample(|| format!("{} bytes, {} useful results", data.len(), useful(&base)));

    let mut order: Vec<usize> = (0..api::SNAP).collect();
    src.shuffle(&mut order);
    compare("again, in another order", &shuffled(ctx, &data, &order)?, &base)?;

    // others of the same length that differ in a few letters, in the same buffer one after the other
    let mut buf = data.clone();
    let mut chain: Vec<(Vec<u8>, Vec<String>)> = vec![];
    for _ in 0..3 {
        let o = relabelled(src, &data);
        buf.copy_from_slice(&o);
        let s = api::snapshot(ctx, &buf)?;
        chain.push((o, s));
    }
    buf.copy_from_slice(&data);
    compare("in a buffer that held similar recordings", &api::snapshot(ctx, &buf)?, &base)?;
    for (o, s) in chain.iter().rev() {
        src.shuffle(&mut order);
        compare("a similar recording, elsewhere", &shuffled(ctx, o, &order)?, s)?;
    }
    ctx.class_if(chain.iter().any(|(_, s)| *s != base), "a similar recording with other results");

    // another recording in between, then this one in the same buffer
    let mut buf = vec![0u8; data.len() + 64];
    let other = match src.weighted(&[3, 2]) {
        0 => {
            // the same length and mostly the same content
            let mut o = data.clone();
            for _ in 0..src.size(1, 6) {
                if !o.is_empty() {
                    let i = src.size(0, o.len() - 1);
                    o[i] = src.byte();
                }
            }
            o
        }
        _ => {
            let mut c = Ctx::default();
            let mut o = anything(src, &mut c);
            o.truncate(buf.len());
            o
        }
    };
    let shift = src.draw(8) as usize;
    let fits = |n: usize| shift + n <= data.len() + 64;
    if fits(other.len()) {
        buf[shift..shift + other.len()].copy_from_slice(&other);
        let in_place = api::snapshot(ctx, &buf[shift..shift + other.len()])?;
        buf[shift..shift + data.len()].copy_from_slice(&data);
        let back = api::snapshot(ctx, &buf[shift..shift + data.len()])?;
        compare("in a buffer that held another recording", &back, &base)?;
        src.shuffle(&mut order);
        let o = shuffled(ctx, &other, &order)?;
        compare("the other recording, elsewhere", &o, &in_place)?;
        if src.chance(1, 4) {
            let f = fresh_process(&other, &[], "/")?;
            compare("the other recording, in a fresh process", &in_place, &f)?;
        }
    }

    if src.chance(1, 4) {
        // at the same time from several threads
        ctx.class("threads");
        let orders: Vec<Vec<usize>> = (0..4)
            .map(|_| {
                let mut o: Vec<usize> = (0..api::SNAP).collect();
                src.shuffle(&mut o);
                o
            })
            .collect();
        let src = &*src;
        let (data, other) = (&data, &other);
        let results: Vec<Result<Vec<String>, Fail>> = std::thread::scope(|s| {
            let hs: Vec<_> = orders
                .iter()
                .enumerate()
                .map(|(i, o)| {
                    std::thread::Builder::new()
                        .stack_size(STACK)
                        .spawn_scoped(s, move || {
                            set_current("C02", src);
                            let mut c = Ctx::default();
                            if i % 2 == 1 {
                                shuffled(&mut c, other, o)?;
                            }
                            shuffled(&mut c, data, o)
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for r in results {
            compare("from another thread", &r?, &base)?;
        }
    }

    let env = *src.pick(&[
        [("TZ", "America/New_York"), ("LC_ALL", "C")],
        [("TZ", "Asia/Kolkata"), ("LC_ALL", "tr_TR.UTF-8")],
        [("TZ", "UTC+12"), ("LANG", "de_DE.ISO-8859-1")],
    ]);
    let cwd = *src.pick(&["/", "/tmp", "/usr"]);
    compare("in another process", &fresh_process(&data, &env, cwd)?, &base)
}

// ---------------------------------------------------------------- C03

pub static C03: Prop = Prop {
    id: "C03",
    rule: "a torn frame behind at least three complete ones; distinct by the recording and the place of the cut",
    run: c03,
    quick: 70_000,
    thorough: 700_000,
    guided: 20_000,
    assumptions: &[
        "no text that ends a duration, starts the match or carries the settings lies in the torn frame",
    ],
    extra: None,
};

struct FrameViews {
    prints: Vec<(String, Vec<u8>)>,
    frags: BTreeMap<String, i32>,
    pings: Option<BTreeMap<u8, u32>>,
    flags: BTreeMap<String, [u32; 7]>,
    durations: String,
}

fn frame_views(ctx: &mut Ctx, d: &[u8]) -> Result<FrameViews, Fail> {
    Ok(FrameViews {
        prints: api::prints(ctx, d)?,
        frags: api::frags(ctx, d)?,
        pings: api::pings(ctx, d)?.ok(),
        flags: api::flags(ctx, d)?,
        durations: format!(
            "{:?} {:?} {:?}",
            api::demo_duration(ctx, d)?.ok(),
            api::countdown_duration(ctx, d)?.ok(),
            api::match_duration_from_seeking(ctx, d)?.ok()
        ),
    })
}

fn c03(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let generated = src.chance(7, 8);
    let (demo, mut data) = if generated {
        let o = rich::Opts {
            roster: RosterOpts {
                max: 5,
                ..RosterOpts::default()
            },
            mix: Mix {
                noise: 3,
                obits: 5,
                anon: 1,
                pings: 3,
                flags: 3,
                chat: 4,
                updates: 1,
                frames: 10,
            },
            stats: 15,
            ..rich::Opts::default()
        };
        let r = rich::rich(src, &o);
        let d = r.demo.bytes();
        (Some(r.demo), d)
    } else {
        ctx.class("frames of a real recording");
        let d = real::excerpt(src, 80).unwrap_or_default();
        let n = wire::complete(&d);
        (None, d[..n].to_vec())
    };
    if data.is_empty() {
        return Ok(());
    }
    let spans = wire::walk(&data);
    let cut = match src.weighted(&[3, 5, 2]) {
        0 => src.size(0, data.len()),
        // within a frame that says something
        1 => {
            let s = src.pick(&spans);
            src.size(s.start, s.end)
        }
        _ => {
            // the whole recording and a header that promises too much
            let len: u32 = *src.pick(&[20, 1, 255, 1 << 16, 1 << 24, u32::MAX, i32::MAX as u32]);
            let cmd = *src.pick(&[6u8, 1, 4, 5, 3, 2]);
            let mut t = vec![src.byte(), cmd];
            if cmd == 3 {
                t.extend(src.bytes(4));
            }
            if cmd != 2 {
                t.extend(len.to_le_bytes());
            }
            let body: &[u8] = *src.pick(&[
                b"".as_slice(),
                b"\x08\x01Aa died\n\0"[..9].as_ref(),
                b"\x24\x01\x10\0\x35\x01",
                b"\x08\x02hello\n\0",
            ]);
            let room = if cmd == 2 { 7 } else { len.saturating_sub(1) as usize };
            t.extend_from_slice(&body[..body.len().min(room)]);
            if src.chance(1, 3) {
                let n = src.size(1, t.len());
                t.truncate(n);
            }
            // a bare header may be complete by accident: see below
            let at = data.len();
            data.extend_from_slice(&t);
            ctx.class("a header that promises too much");
            ctx.class_if(t.len() < 6, "a partial header");
            let _ = at;
            data.len()
        }
    };
    let data = &data[..cut];
    let whole = wire::complete(data);
    let torn = &data[whole..];
    ctx.demo = data.to_vec();
    for marker in [
        b"The match is over".as_slice(),
        b"4status\0Standby\0",
        b"\x08\x02matchdate: ",
        b"fullserverinfo \"",
    ] {
        if wire::find(torn, marker).is_some() {
            ctx.class("skipped: a marker text in the torn frame");
            return Ok(());
        }
    }
    // a settings string that only the torn frame closes
    let head = &data[whole.min(1280)..data.len().min(1280)];
    let open = wire::find_last(&data[..whole], b"fullserverinfo \"")
        .is_some_and(|i| !data[i + 16..whole].contains(&b'"') && head.contains(&b'"'));
    if open {
        ctx.class("skipped: a marker text in the torn frame");
        return Ok(());
    }
    // markers must not straddle the boundary either
    for marker in [b"The match is over".as_slice(), b"4status\0Standby\0", b"\x08\x02matchdate: "] {
        if wire::find_last(data, marker).is_some_and(|i| i + marker.len() > whole) {
            ctx.class("skipped: a marker text in the torn frame");
            return Ok(());
        }
    }
    let n = wire::walk(data).len();
    ctx.class(if torn.is_empty() { "cut between frames" } else { "torn frame" });
    if !torn.is_empty() && n >= 3 {
        let mut key = data.to_vec();
        key.extend(cut.to_le_bytes());
        ctx.nontrivial(&key);
    }
    ctx.sample(|| format!("{n} complete frames, {} bytes of the next one: {:?}", torn.len(), &torn[..torn.len().min(24)]));

    let got = frame_views(ctx, data)?;
    let want = frame_views(ctx, &data[..whole])?;
    same("prints of a torn recording", &got.prints, &want.prints)?;
    same("frags of a torn recording", &got.frags, &want.frags)?;
    same("pings of a torn recording", &got.pings, &want.pings)?;
    same("flag events of a torn recording", &got.flags, &want.flags)?;
    same("durations of a torn recording", &got.durations, &want.durations)?;

    // and nothing before it is lost
    let Some(d) = demo else {
        return super::same("prints", &got.prints, &super::traffic::reference_prints(data));
    };
    if n > d.frames.len() {
        // the made-up header was a complete frame without a body
        return Ok(());
    }
    let frames = &d.frames[..n];
    let roster: &[Client] = if n >= d.body_from { &d.roster } else { &[] };
    same("prints of the complete frames", &got.prints, &model_prints(frames))?;
    same("frags of the complete frames", &got.frags, &model_frags(frames, roster))?;
    same("pings of the complete frames", &got.pings, &model_pings(frames))?;
    same("flag events of the complete frames", &got.flags, &model_flags(frames))?;
    let end = last_mark(frames, MATCH_OVER).or(last_mark(frames, STANDBY));
    match api::demo_duration(ctx, data)? {
        Ok(t) => super::traffic::near("demo_duration of the complete frames", t, model_ms(frames, end)),
        Err(e) => fail!("demo_duration fails: {e}"),
    }
}

// ---------------------------------------------------------------- C22

pub static C22: Prop = Prop {
    id: "C22",
    rule: "at least three frames put in or a frame time changed, and at least ten functions give a result; distinct by both recordings",
    run: c22,
    quick: 20_000,
    thorough: 350_000,
    guided: 10_000,
    assumptions: &[
        "frames are not put into a spawn block, a chain of statistics blocks or the window of an anonymous team kill, in front of the settings or behind the end",
    ],
    extra: None,
};

/// Much that says nothing: large frames or a great many.
fn bulk(src: &mut Src, timeless: bool) -> Vec<Frame> {
    let many = src.chance(1, 4);
    let slow = many && !timeless && src.chance(1, 2);
    let mut some: Vec<Frame> = vec![];
    let mut size = 0;
    while some.len() < 8 || (!many && size < 4_000 && some.len() < 200) {
        let mut f = noise_frame(src);
        if many && f.body().len() > 16 {
            continue;
        }
        if timeless {
            f.dur = 0;
        }
        if slow {
            // hours
            f.dur = 255;
        }
        size += f.body().len();
        some.push(f);
    }
    let mut v = vec![];
    if many {
        let n = 65_537 + src.size(0, 3_000);
        (0..n).for_each(|i| v.push(some[i % some.len()].clone()));
    } else {
        let most = *src.pick(&[70_000usize, 140_000, 300_000, 1_100_000]);
        let mut bytes = 0;
        while bytes < most {
            let f = &some[v.len() % some.len()];
            bytes += f.body().len() + 6;
            v.push(f.clone());
        }
    }
    v
}

fn c22(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let timeless = src.chance(1, 3);
    let (base, varied, edits) = if src.chance(7, 8) {
        let r = rich::rich(src, &rich::Opts::default());
        let mut v = r.demo.clone();
        let mut edits = 0;
        if !timeless && src.chance(1, 2) {
            for f in &mut v.frames {
                if src.chance(1, 2) {
                    let d = dur(src);
                    edits += usize::from(f.dur != d);
                    f.dur = d;
                }
            }
            ctx.class_if(edits > 0, "frame times changed");
        }
        let n = match src.weighted(&[4, 2, 1]) {
            0 => src.size(0, 8),
            1 => src.size(0, 40),
            _ => src.size(0, 300),
        };
        // few places get a lot, or all get some
        let spread = src.chance(1, 2);
        let mut at = 0;
        for k in 0..n {
            let mut g = rich::gaps(&v.frames, 1);
            if r.ended {
                g.retain(|i| *i < v.frames.len());
            }
            if g.is_empty() {
                break;
            }
            if k == 0 || spread || !g.contains(&at) {
                at = *src.pick(&g);
            }
            let mut f = noise_frame(src);
            if timeless {
                f.dur = 0;
            }
            v.frames.insert(at, f);
            edits += 1;
        }
        if src.chance(1, 120) {
            // a lot of it in one place
            let mut g = rich::gaps(&v.frames, 1);
            if r.ended {
                g.retain(|i| *i < v.frames.len());
            }
            if let (Some(first), Some(last)) = (g.first(), g.last()) {
                let at = match src.draw(3) {
                    0 => *first,
                    1 => *last,
                    _ => *src.pick(&g),
                };
                let bulk = bulk(src, timeless);
                edits += bulk.len();
                ctx.class_if(bulk.len() > 65_536, "more than 65536 frames in one place");
                ctx.class_if(bulk.len() < 65_536, "more than 64 KiB in one place");
                v.frames.splice(at..at, bulk);
            }
        }
        (r.demo.bytes(), v.bytes(), edits)
    } else {
        ctx.class("frames of a real recording");
        let base = real::excerpt(src, 60).unwrap_or_default();
        let base = base[..wire::complete(&base)].to_vec();
        let spans = wire::walk(&base);
        let ended = base.ends_with(b"EndOfDemo\0");
        let mut v = vec![];
        let mut edits = 0;
        let later = spans
            .iter()
            .position(|s| wire::find(&base[s.body..s.end], b"\x09cmd spawn").is_some())
            .map_or(60, |i| i + 60);
        for (i, s) in spans.iter().enumerate() {
            let hidden = |s: &wire::Span| s.cmd & 7 == 3 && s.mask == [0; 4];
            if i > later && !hidden(s) && (!ended || i < spans.len()) && src.chance(1, 6) {
                // frames without messages do not come in between anything
                let mut f = noise_frame(src);
                if f.kind.carries_messages() {
                    f.msgs.clear();
                }
                if timeless {
                    f.dur = 0;
                }
                wire::put_frame(&mut v, f.dur, &f.kind, &f.body());
                edits += 1;
            }
            v.extend_from_slice(&base[s.start..s.end]);
        }
        (base, v, edits)
    };
    ctx.demo = varied.clone();
    let a = api::snapshot(ctx, &base)?;
    let b = api::snapshot(ctx, &varied)?;
    if edits >= 3 && useful(&a) >= 10 {
        let mut key = base.clone();
        key.extend_from_slice(&varied);
        ctx.nontrivial(&key);
    }
    ctx.class_if(timeless, "frames of no time");
    ctx.class_if(edits > 50, "more than fifty frames");
    ctx.sample(|| format!("{} bytes, {edits} edits to {} bytes, no time {timeless}", base.len(), varied.len()));
    let longer = base.len() < 1024 && varied.len() >= 1024;
    for (x, y) in a.iter().zip(&b) {
        let name = x.split('(').next().unwrap_or("");
        let of_time = matches!(
            name,
            "countdown_duration" | "demo_duration" | "match_duration" | "match_duration_from_seeking"
        );
        if (of_time && !timeless) || (name == "is_valid" && longer) {
            continue;
        }
        if x != y {
            return Err(Fail(differs(&format!("with {edits} irrelevant edits"), y, x)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C23

pub static C23: Prop = Prop {
    id: "C23",
    rule: "players, settings or statistics can be read; distinct by the recording",
    run: c23,
    quick: 35_000,
    thorough: 600_000,
    guided: 25_000,
    assumptions: &["the order among equal players, and of names with the same plain text, is not specified"],
    extra: None,
};

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

fn c23(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let data = anything(src, ctx);
    ctx.demo = data.clone();
    views_agree(ctx, &data)
}

pub fn views_agree(ctx: &mut Ctx, data: &[u8]) -> Outcome {
    let players = api::players(ctx, data)?;
    let parsed = api::players_from_parsing(ctx, data)?;
    let teams = api::teams(ctx, data)?;
    let clients = api::clients(ctx, data)?;
    let strings = api::clientinfo_strings(ctx, data)?;
    let infos = api::clientinfo(ctx, data)?;
    let settings = api::serverinfo(ctx, data)?;
    let settings_s = api::serverinfo_string(ctx, data)?;
    let stats_s = api::ktxstats_string(ctx, data)?;
    let stats = api::ktxstats_v3(ctx, data)?;
    if players.as_ref().is_ok_and(|p| !p.is_empty()) || settings.is_ok() || stats.is_ok() {
        ctx.nontrivial(data);
    }
    ctx.class_if(players.is_ok(), "players");
    ctx.class_if(clients.is_ok(), "clients");
    ctx.class_if(settings.is_ok(), "settings");
    ctx.class_if(stats.is_ok(), "statistics");
    ctx.sample(|| {
        format!(
            "{} bytes, {:?} players, {:?} clients",
            data.len(),
            players.as_ref().ok().map(Vec::len),
            clients.as_ref().ok().map(Vec::len)
        )
    });

    // teams regroup the players
    match (&players, &teams) {
        (Ok(ps), Ok(ts)) => {
            let mut names: Vec<&String> = ts.iter().map(|t| &t.name).collect();
            names.sort();
            names.dedup();
            ensure!(names.len() == ts.len(), "a team is listed twice: {names:?}");
            for t in ts {
                let own: Vec<api::Player> = ps.iter().filter(|p| p.team == t.name).cloned().collect();
                same(&format!("players of team {:?}", t.name), &t.players, &own)?;
                ensure!(!own.is_empty(), "team {:?} without players", t.name);
                let sum: i64 = own.iter().map(|p| i64::from(p.frags)).sum();
                let sum = sum.clamp(i64::from(i32::MIN), i64::from(i32::MAX));
                same(&format!("frags of team {:?}", t.name), &i64::from(t.frags), &sum)?;
            }
            let total: usize = ts.iter().map(|t| t.players.len()).sum();
            same("players in teams", &total, &ps.len())?;
            let again = call(ctx, "teams_from_players", data, || m::teams_from_players(ps))?;
            same("teams_from_players", &again, ts)?;
        }
        (Err(_), Err(_)) => {}
        (p, t) => fail!("players are {:?}, teams are {:?}", p.is_ok(), t.is_ok()),
    }

    // roster views
    ensure!(
        clients.is_ok() == strings.is_ok() && clients.is_ok() == infos.is_ok(),
        "clients {:?}, clientinfo_strings {:?} and clientinfo {:?}",
        clients.is_ok(),
        strings.is_ok(),
        infos.is_ok()
    );
    let pc = api::player_clients(ctx, data)?;
    let sc = api::spectator_clients(ctx, data)?;
    let pn = api::player_names(ctx, data)?;
    let sn = api::spectator_names(ctx, data)?;
    let tn = api::team_names(ctx, data)?;
    let bots = api::has_bot_players(ctx, data)?;
    let humans = api::has_human_players(ctx, data)?;
    match &clients {
        Ok(cs) => {
            same("clients", &cs.len(), &strings.map_or(0, |s| s.len()))?;
            same("clients", &cs.len(), &infos.map_or(0, |s| s.len()))?;
            let (s, p): (Vec<_>, Vec<_>) = cs.iter().cloned().partition(|c| c.is_spectator);
            same("player_clients", &pc, &Ok(p.clone()))?;
            same("spectator_clients", &sc, &Ok(s.clone()))?;
            same("player_names", &pn.map(sorted), &Ok(sorted(p.iter().map(|c| c.name.clone()).collect())))?;
            same("spectator_names", &sn.map(sorted), &Ok(sorted(s.iter().map(|c| c.name.clone()).collect())))?;
            let mut t = sorted(p.iter().map(|c| c.team.clone()).collect());
            t.dedup();
            same("team_names", &tn.map(sorted), &Ok(t))?;
            let mention = r#""bot": {"#;
            let stats_bot = wire::find(data, mention.as_bytes()).is_some()
                || api::ktxstats_string(ctx, data)?.is_ok_and(|s| s.contains(mention));
            same("has_bot_players", &bots, &Ok(stats_bot || p.iter().any(|c| c.is_bot)))?;
            same("has_human_players", &humans, &Ok(p.iter().any(|c| !c.is_bot)))?;
        }
        Err(_) => {
            ensure!(
                pc.is_err() && sc.is_err() && pn.is_err() && sn.is_err() && tn.is_err() && bots.is_err() && humans.is_err(),
                "a roster view without clients"
            );
        }
    }

    // player list
    let pings = api::pings(ctx, data)?;
    let frags = api::frags(ctx, data)?;
    match (&clients, &pings, &parsed) {
        (Ok(cs), Ok(pings), Ok(ps)) => {
            let line = |p: &api::Player| format!("{p:?}");
            let want: Vec<String> = cs
                .iter()
                .filter(|c| !c.is_spectator)
                .map(|c| {
                    line(&api::Player {
                        name: c.name.clone(),
                        team: c.team.clone(),
                        color: c.color,
                        frags: frags.get(&c.name).copied().unwrap_or(0),
                        ping: pings.get(&c.number).copied().unwrap_or(0),
                        is_bot: c.is_bot,
                        auth_username: c.auth_username.clone(),
                        auth_cc: c.auth_cc.clone(),
                    })
                })
                .collect();
            same("players_from_parsing", &sorted(ps.iter().map(line).collect()), &sorted(want))?;
        }
        (Ok(_), Ok(_), Err(e)) => fail!("players_from_parsing fails with clients and pings: {e}"),
        (_, _, Ok(ps)) => fail!("players_from_parsing finds {ps:?} without clients or pings"),
        _ => {}
    }
    match &stats {
        Ok(v) => {
            let ps = call(ctx, "players_from_ktxstats", data, || {
                m::players_from_ktxstats(v).map_err(|e| e.to_string())
            })?;
            same("players", &players, &ps)?;
        }
        Err(_) => same("players", &players, &parsed)?,
    }
    if let Ok(ps) = &players {
        ensure!(
            ps.windows(2).all(|w| (w[1].frags, &w[0].name) <= (w[0].frags, &w[1].name)
                || w[0].frags > w[1].frags),
            "players are not in order: {ps:?}"
        );
    }

    // settings
    let file = api::filename(ctx, data)?;
    let epoch = api::timestamp_from_epoch(ctx, data)?;
    match (&settings, &settings_s) {
        (Ok(v), Ok(s)) => {
            // the closing delimiter keeps the last value as it is
            let s = format!("{s}\\");
            let again = call(ctx, "Settings::from", data, || api::Settings::from(s.as_str()))?;
            same("serverinfo", v, &again)?;
            same("filename", &file.ok(), &v.serverdemo)?;
            same("timestamp_from_epoch", &epoch.clone().ok(), &v.epoch.map(|e| (i64::from(e), 0)))?;
        }
        (Err(_), Err(_)) => ensure!(
            file.is_err() && epoch.is_err(),
            "filename {file:?} and epoch {epoch:?} without settings"
        ),
        (v, s) => fail!("serverinfo {v:?} and serverinfo_string {s:?}"),
    }
    let date_s = api::matchdate_string(ctx, data)?;
    let date = api::matchdate(ctx, data)?;
    ensure!(date.is_err() || date_s.is_ok(), "matchdate {date:?} without its text");
    if let Ok(s) = &date_s {
        ensure!((22..=25).contains(&s.len()), "matchdate_string of {} bytes", s.len());
    }
    let time = api::timestamp(ctx, data)?;
    same("timestamp", &time.ok(), &epoch.ok().or(date.ok()))?;

    // statistics
    match (&stats_s, &stats) {
        (Ok(s), v) => {
            let again = KtxstatsV3::try_from(s.as_str());
            ensure!(again.is_ok() == v.is_ok(), "ktxstats_v3 does not follow its text");
            if let (Ok(a), Ok(v)) = (again, v) {
                same("ktxstats_v3", &format!("{v:?}"), &format!("{a:?}"))?;
            }
        }
        (Err(_), Ok(_)) => fail!("ktxstats_v3 without a text"),
        _ => {}
    }
    let server = api::server(ctx, data)?;
    match &stats {
        Ok(v) => {
            let want = api::Server {
                hostname: v.hostname.clone(),
                address: format!("{}:{}", v.ip, v.port),
                ip: v.ip.clone(),
                port: v.port,
            };
            same("server", &server, &Ok(want))?;
        }
        Err(_) => ensure!(server.is_err(), "server {server:?} without statistics"),
    }

    // state
    let valid = api::is_valid(ctx, data)?;
    let paused = api::is_paused(ctx, data)?;
    let end = api::has_end_of_demo_print(ctx, data)?;
    let has_clients = api::has_clients(ctx, data)?;
    same("has_clients", &has_clients, &clients.as_ref().is_ok_and(|c| !c.is_empty()))?;
    same("is_valid", &valid, &(data.len() >= 1024 && end && has_clients && settings_s.is_ok()))?;
    ensure!(!(valid && paused), "valid and paused");
    ensure!(!(end && paused), "ended and paused");
    let _ = api::is_aborted(ctx, data)?;

    // durations
    let demo = api::demo_duration(ctx, data)?;
    let count = api::countdown_duration(ctx, data)?;
    let seek = api::match_duration_from_seeking(ctx, data)?;
    let from_stats = api::match_duration_from_ktxstats(ctx, data)?;
    let of_match = api::match_duration(ctx, data)?;
    let hoony = settings.as_ref().is_ok_and(|s| s.mode.as_deref() == Some("hoonymode"));
    if let Ok(demo) = demo {
        let want = demo.checked_sub(count.clone().unwrap_or_default());
        match (&seek, want) {
            (Ok(s), Some(w)) => same("match_duration_from_seeking", s, &w)?,
            (Ok(s), None) => ensure!(s.is_zero(), "match_duration_from_seeking {s:?} of an impossible recording"),
            (Err(_), None) => {}
            (Err(e), Some(w)) => fail!("match_duration_from_seeking fails instead of {w:?}: {e}"),
        }
    }
    if hoony {
        same("countdown_duration", &count.ok(), &Some(std::time::Duration::ZERO))?;
    }
    let want = match (hoony, from_stats) {
        (false, Ok(d)) => Some(d),
        _ => seek.ok(),
    };
    same("match_duration", &of_match.ok(), &want)?;

    // messages
    let prints = api::prints(ctx, data)?;
    ensure!(prints.windows(2).all(|w| w[0] != w[1]), "the same print twice in a row");
    ensure!(prints.iter().all(|p| !p.1.is_empty()), "an empty print");
    if frags.values().any(|n| *n != 0) {
        ensure!(prints.iter().any(|p| p.0 == "Medium"), "frags {frags:?} without medium-level prints");
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

pub static C24: Prop = Prop {
    id: "C24",
    rule: "both parts hold a message of interest; distinct by the recording and the place of the cut",
    run: c24,
    quick: 30_000,
    thorough: 450_000,
    guided: 15_000,
    assumptions: &[
        "the cut does not tear apart a spawn block, a chain of statistics blocks or the window of an anonymous team kill",
        "frag counts of real recordings are compared when these hold no anonymous team kill",
    ],
    extra: None,
};

fn plus(a: &BTreeMap<String, i32>, b: &BTreeMap<String, i32>) -> BTreeMap<String, i32> {
    let mut r = a.clone();
    for (k, n) in b {
        *r.entry(k.clone()).or_default() += n;
    }
    r
}

/// The opening of a recording, up to its roster, and what follows in three parts.
fn parts(src: &mut Src, ctx: &mut Ctx) -> Option<([Vec<u8>; 4], bool, bool)> {
    if src.chance(5, 6) {
        let o = rich::Opts {
            mix: Mix {
                frames: *src.pick(&[12, 12, 30]),
                pings: *src.pick(&[2, 2, 16]),
                ..Mix::default()
            },
            ..rich::Opts::default()
        };
        let mut r = rich::rich(src, &o);
        if r.info.is_some() && !r.demo.roster.is_empty() && src.chance(1, 8) {
            // the server starts again
            let info = infostring(&usual_info(src));
            let cs = roster(src, &o.roster);
            let mut fs = vec![];
            if src.chance(1, 2) {
                fs.extend(head_frames(src, Some(&info)));
            }
            fs.extend(spawn_frames(src, &cs));
            fs.extend(filler(src));
            rich::insert(src, &mut r.demo, fs);
            ctx.class("two openings");
        }
        let g = rich::gaps(&r.demo.frames, r.demo.body_from);
        let mut cuts = [*src.pick(&g), *src.pick(&g)];
        cuts.sort_unstable();
        let enc = |fs: &[Frame]| {
            let mut b = vec![];
            for f in fs {
                wire::put_frame(&mut b, f.dur, &f.kind, &f.body());
            }
            b
        };
        let fs = &r.demo.frames;
        let ps = [
            enc(&fs[..r.demo.body_from]),
            enc(&fs[r.demo.body_from..cuts[0]]),
            enc(&fs[cuts[0]..cuts[1]]),
            enc(&fs[cuts[1]..]),
        ];
        Some((ps, true, r.hoony))
    } else {
        let d = real::excerpt(src, 120)?;
        let spans = wire::walk(&d);
        if spans.len() < 70 {
            return None;
        }
        let hidden = |s: &wire::Span| s.cmd & 7 == 3 && s.mask == [0; 4];
        let g: Vec<usize> = (60..=spans.len()).filter(|i| !spans.get(*i).is_some_and(hidden)).collect();
        let mut cuts = [*src.pick(&g), *src.pick(&g)];
        cuts.sort_unstable();
        let at = |i: usize| spans.get(i).map_or(wire::complete(&d), |s| s.start);
        let (o, a, b) = (at(60), at(cuts[0]), at(cuts[1]));
        let end = wire::complete(&d);
        ctx.class("frames of a real recording");
        if o < 1280 {
            return None;
        }
        let counts = wire::find(&d, b"teammate").is_none();
        let hoony = wire::find(&d[..1280], b"hoonymode").is_some();
        Some(([d[..o].to_vec(), d[o..a].to_vec(), d[a..b].to_vec(), d[b..end].to_vec()], counts, hoony))
    }
}

fn c24(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let Some(([opening, first, second, third], with_frags, hoony)) = parts(src, ctx) else {
        return Ok(());
    };
    let generated = !ctx.classes.contains(&"frames of a real recording");
    let cat = |ps: &[&[u8]]| ps.concat();
    let whole = cat(&[&opening, &first, &second, &third]);
    let start = cat(&[&opening, &first]);
    let rest = cat(&[&second, &third]);
    ctx.demo = whole.clone();

    // messages
    let all = api::prints(ctx, &whole)?;
    let mut joined = api::prints(ctx, &start)?;
    let speaks = !joined.is_empty();
    let tail = api::prints(ctx, &rest)?;
    if speaks && !tail.is_empty() {
        let mut key = whole.clone();
        key.extend(start.len().to_le_bytes());
        ctx.nontrivial(&key);
    }
    ctx.sample(|| {
        let n = [&opening, &first, &second, &third].map(|p| p.len());
        format!("parts of {n:?} bytes, {} prints", all.len())
    });
    let again = usize::from(joined.last().is_some() && joined.last() == tail.first());
    ctx.class_if(again == 1, "the same print on both sides");
    joined.extend_from_slice(&tail[again..]);
    same("prints of the parts", &all, &joined)?;

    let flags = api::flags(ctx, &whole)?;
    let mut sum = api::flags(ctx, &start)?;
    for (k, n) in api::flags(ctx, &rest)? {
        let e = sum.entry(k).or_default();
        for (a, b) in e.iter_mut().zip(n) {
            *a += b;
        }
    }
    same("flag events of the parts", &flags, &sum)?;

    // frags need the roster of the opening
    if with_frags {
        let frags = api::frags(ctx, &whole)?;
        let before = api::frags(ctx, &opening)?;
        ensure!(!generated || before.is_empty(), "frags {before:?} in an opening");
        if before.is_empty() {
            let a = api::frags(ctx, &start)?;
            let b = api::frags(ctx, &cat(&[&opening, &rest]))?;
            ctx.class_if(!a.is_empty() && !b.is_empty(), "frags in both parts");
            same("frags of the parts", &frags, &plus(&a, &b))?;
            let swapped = cat(&[&opening, &third, &first, &second]);
            same("frags in another order", &api::frags(ctx, &swapped)?, &frags)?;
            same("flag events in another order", &api::flags(ctx, &swapped)?, &flags)?;
        }
    }

    // what has been decided stays
    let updates = |d: &[u8]| {
        let s = wire::walk(d);
        s.iter().filter(|s| s.carries_messages() && !wire::opening_pings(&d[s.body..s.end]).is_empty()).count()
    };
    let before = updates(&start);
    if before >= 8 || updates(&rest) == 0 {
        ctx.class_if(before >= 8, "eight frames of pings");
        same("pings of the first part", &api::pings(ctx, &whole)?.ok(), &api::pings(ctx, &start)?.ok())?;
    }
    same("clients of the first part", &api::clients(ctx, &whole)?.ok(), &api::clients(ctx, &start)?.ok())?;
    same("settings of the first part", &api::serverinfo_string(ctx, &whole)?.ok(), &api::serverinfo_string(ctx, &start)?.ok())?;
    same("file name of the first part", &api::filename(ctx, &whole)?.ok(), &api::filename(ctx, &start)?.ok())?;

    const DATE: &[u8] = b"\x08\x02matchdate: ";
    let dated = wire::find(&start, DATE).is_some();
    let of = if dated { &start } else { &rest };
    same("match date", &api::matchdate_string(ctx, &whole)?.ok(), &api::matchdate_string(ctx, of)?.ok())?;

    let of = if wire::find(&rest, crate::ktx::START).is_some() { &rest } else { &start };
    same("statistics", &api::ktxstats_string(ctx, &whole)?.ok(), &api::ktxstats_string(ctx, of)?.ok())?;

    // time
    let ms = |d: &[u8]| -> u64 { wire::walk(d).iter().map(|s| u64::from(s.dur)).sum() };
    let passed = std::time::Duration::from_millis(ms(&start));
    let total = api::demo_duration(ctx, &whole)?.ok();
    let later = api::demo_duration(ctx, &rest)?.ok().map(|t| t + passed);
    let over = b"The match is over".as_slice();
    let standby = b"4status\0Standby\0".as_slice();
    let ends = |d: &[u8]| {
        if wire::find(d, over).is_some() {
            2
        } else {
            i32::from(wire::find(d, standby).is_some())
        }
    };
    let want = if ends(&start) > ends(&rest) {
        api::demo_duration(ctx, &start)?.ok()
    } else {
        later
    };
    ctx.class(match (ends(&start), ends(&rest)) {
        (0, 0) => "no end of the match",
        (a, b) if a > b => "the end of the match in the first part",
        (0, _) => "the end of the match in the second part",
        _ => "two ends of the match",
    });
    same("demo duration of the parts", &total, &want)?;
    if !hoony {
        let count = api::countdown_duration(ctx, &whole)?.ok();
        let want = if dated {
            api::countdown_duration(ctx, &start)?.ok()
        } else {
            api::countdown_duration(ctx, &rest)?.ok().map(|t| t + passed)
        };
        same("countdown of the parts", &count, &want)?;
    }

    // state
    let aborted = api::is_aborted(ctx, &start)? || api::is_aborted(ctx, &rest)?;
    same("aborted", &api::is_aborted(ctx, &whole)?, &aborted)?;
    if !rest.is_empty() && !api::has_end_of_demo_print(ctx, &start)? {
        let ended = api::has_end_of_demo_print(ctx, &rest)?;
        same("ended", &api::has_end_of_demo_print(ctx, &whole)?, &ended)?;
        let paused = !ended && (api::is_paused(ctx, &start)? || api::is_paused(ctx, &rest)?);
        same("paused", &api::is_paused(ctx, &whole)?, &paused)?;
    }
    Ok(())
}
