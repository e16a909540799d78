//! Inputs that nobody meant to send.
use mvdparser::all as m;
use mvdparser::KtxstatsV3;

use super::meta::{anything, damage};
use crate::engine::{call, Ctx, Outcome, Prop, Src};
use crate::gen::*;
use crate::ktx::{self, DocOpts};
use crate::wire::{self, put_frame, Kind};
use crate::{api, ensure, rich};

pub static C01: Prop = Prop {
    id: "C01",
    rule: "the input is not empty; distinct by its bytes",
    run: c01,
    quick: 35_000,
    thorough: 700_000,
    guided: 60_000,
    assumptions: &[
        "work is measured in executed edges of the parser plus a sixteenth of the bytes it moves: at most 2e8 + 3000 n + n*n/16 for n bytes of input, and 2e7 + 120 n on an ordinary recording of at least 20000 frames (it takes about 15 n); memory: at most 256 MiB + 512 n",
    ],
    extra: None,
};

const TOKENS: &[&[u8]] = &[
    b"\x08\x02matchdate: ",
    b"\x08\x02matchdate: 2024-04-26 16:59:12 CEST\n\0",
    b"\x08\x02matchdate: 2024-04-26 16:59:12 +0200\n\0",
    b"\x08\x02matchdate: 0000-00-00 00:00:00 +1200\n\0",
    b"\x08\x02matchdate: 9999-12-31 23:59:59 -1200\n\0",
    b"\x08\x02matchdate: \x99\x99\x99\x99\x99\x99\x99\x99\x99\x99\x99\x99\x99\x99\x99\x99\x99\x99\x99\x99\x99\x99\x99\n",
    b"\x08\x02matchdate: \xc3\xa5\xc3\xa5\xc3\xa5\xc3\xa5\xc3\xa5\xc3\xa5\xc3\xa5\xc3\xa5\xc3\xa5\xc3\xa5\xc3\xa5\xc3\xa5\n",
    b"fullserverinfo \"",
    b"fullserverinfo \"\\mode\\hoonymode\\map\\dm3\"",
    b"\\epoch\\99999999999999999999\\maxfps\\77",
    b"\\epoch\\-1",
    b"\\serverdemo\\",
    b"\x09cmd spawn",
    b"\\name\\",
    b"\0\\name\\a\\team\\b\0",
    b"\x28\x05\x01\0\0\0\\name\\a\\topcolor\\999\\bottomcolor\\-1\\*spectator\\1\0",
    b"\\team\\",
    b"\\\\\\\\\\",
    b"{\"version\": ",
    b"{\"version\": 3,\"duration\": 1e400,\"players\": []}",
    b"\"duration\": ",
    b"\"duration\": -1,",
    b"\"bot\": {",
    b"EndOfDemo\0",
    b"\x02EndOfDemo\0",
    b"\0\x02EndOfDemo\0",
    b"The match is over",
    b"4status\0Standby\0",
    b"paused the game",
    b"Server is paused",
    b"\xcd\xe1\xf4\xe3\xe8 \xf3\xf4\xef\xf0\xf0\xe5\xe4",
    b"\x08\x01",
    b"\x08\x02",
    b"\x08\x03",
    b"\x08\x01a was telefragged by his teammate\n\0",
    b"\x08\x01 was telefragged by his teammate\n\0",
    b"\x08\x01a\n\0",
    b"\x08\x01\n\0",
    b"\x08\x01 suicides\0",
    b"\x08\x01suicides\n\0",
    b"\x08\x01 rides 's rocket\n\0",
    b"\x08\x01'sas was gibbed by rocket\n\0",
    b"\x08\x01a rips \xff a new one\n\0",
    b"\x08\x01 rips  a new one\n\0",
    b"\x08\x01x rips a new one\n\0",
    b"\x08\x01x rides's rocket\n\0",
    b"\x08\x02 \xe7\xef\xf4 the \xd2\xc5\xc4 flag!\n\0",
    b"\x08\x02a \xe3\xe1\xf0\xf4\xf5\xf2\xe5\xe4 the \xc2\xcc\xd5\xc5 flag!\n\0",
    b"\x08\x02 gets an assist for returning his flag!\n\0",
    b"\x0e\x01\x05\0",
    b"\x0e",
    b"\x24\x01\xff\xff\x35\x01\x01",
    b"\x24\x01\x10",
    b"\x24",
    b"\x24\x01\xff\xff\x35",
    b"\x00\x06\x00\x00\x00\x00",
    b"\xff\x06\xff\xff\xff\xff",
    b"\xff\x03\x00\x00\x00\x00\xff\xff\xff\xff",
    b"\xff\x03\x00\x00\x00\x00\x06\x00\x00\x00\x00\x00\x00\x00\x03\x00",
    b"\x00\x06\xff\xff\xff\x7f",
    b"\x00\x02",
    b"\x00\x07",
    b"\x01\x00\x00\x00",
    b"\xfa\xff\xff\xff",
    b"\xff\xff\xff\xff",
];

fn extreme_len(src: &mut Src, real: usize) -> u32 {
    match src.weighted(&[5, 2, 3]) {
        0 => real as u32,
        1 => (real as i64 + src.range(-8, 8)).max(0) as u32,
        _ => *src.pick(&[
            u32::MAX,
            u32::MAX - 1,
            u32::MAX - 5,
            u32::MAX - 9,
            u32::MAX - 13,
            i32::MAX as u32,
            i32::MAX as u32 + 1,
            0,
            1,
            2,
            0xffff,
            0x1_0000,
        ]),
    }
}

/// A date print whose characters are more or less right.
fn wild_date(src: &mut Src) -> Vec<u8> {
    let mut text = src
        .pick(&["2024-04-26 16:59:12 CEST", "2024-04-26 16:59:12 +0200", "2024-04-26 16:59:12 GMT", "2024-04-26 16:59:60 AMST"])
        .as_bytes()
        .to_vec();
    for _ in 0..src.size(1, 3) {
        if text.is_empty() {
            break;
        }
        let at = match src.weighted(&[2, 1]) {
            0 => src.draw(text.len() as u64) as usize,
            _ => 18 + src.draw(3) as usize,
        };
        let at = at.min(text.len() - 1);
        let one = [src.byte()];
        let with: &[u8] = *src.pick(&[
            "\u{e9}".as_bytes(),
            "\u{2022}".as_bytes(),
            "\u{1F980}".as_bytes(),
            "\u{2212}".as_bytes(),
            one.as_slice(),
            b"-",
            b"+",
            b" ",
            b"9",
            b"",
        ]);
        let n = match src.weighted(&[3, 2]) {
            0 => with.len(),
            _ => src.draw(3) as usize,
        };
        let to = (at + n).min(text.len());
        text.splice(at..to, with.iter().copied());
    }
    let mut v = b"\x08\x02matchdate: ".to_vec();
    v.extend(text);
    v.push(b'\n');
    v
}

/// Tokens, garbage and frames in any order.
fn soup(src: &mut Src) -> Vec<u8> {
    let mut out = vec![];
    let mut n = 0;
    while src.more(n, 0, 400, 25) {
        n += 1;
        match src.weighted(&[8, 3, 6, 2, 2, 1, 1]) {
            0 => out.extend_from_slice(src.pick(TOKENS)),
            1 => {
                let k = src.size(1, 30);
                out.extend(src.bytes(k));
            }
            // a frame of tokens
            2 => {
                let mut body = vec![];
                while src.more(body.len(), 0, 400, 40) {
                    if src.chance(1, 4) {
                        let k = src.size(1, 8);
                        body.extend(src.bytes(k));
                    } else {
                        body.extend_from_slice(src.pick(TOKENS));
                    }
                }
                let d = src.byte();
                let kind = match src.draw(3) {
                    0 => Kind::All,
                    1 => Kind::Hidden,
                    _ => target(src),
                };
                let at = out.len();
                put_frame(&mut out, d, &kind, &body);
                if src.chance(1, 4) {
                    // lie about the size
                    let len = extreme_len(src, body.len());
                    let i = out.len() - body.len() - 4;
                    if i >= at {
                        out[i..i + 4].copy_from_slice(&len.to_le_bytes());
                    }
                }
            }
            // a statistics block
            3 => {
                let text = [ktx::START, *src.pick(TOKENS)].concat();
                let mut b = ktx::block_body(&text, *src.pick(&[3u16, 3, 0, 0xffff]), *src.pick(&[0u16, 1, 0xffff]));
                let len = extreme_len(src, text.len() + 2);
                b[..4].copy_from_slice(&len.to_le_bytes());
                put_frame(&mut out, 0, &Kind::Hidden, &b);
            }
            // a long run
            4 => {
                let c = *src.pick(&[0u8, 8, 1, 0x5c, 0x22, 0xff, b' ', 36, 14, 9, b'n']);
                let k = *src.pick(&[3usize, 24, 256, 512, 1024, 1280]);
                out.resize(out.len() + k, c);
            }
            6 => out.extend(wild_date(src)),
            // the same again
            _ => {
                if !out.is_empty() {
                    let i = src.size(0, out.len() - 1);
                    let k = src.size(1, 200).min(out.len() - i);
                    let c = out[i..i + k].to_vec();
                    for _ in 0..src.size(1, 20) {
                        out.extend_from_slice(&c);
                    }
                }
            }
        }
    }
    out
}

/// Overwrites runs of digits with numbers of the same length that are at the edge of a range.
fn edge_numbers(src: &mut Src, data: &mut [u8]) -> bool {
    const EDGES: &[&str] = &[
        "0", "9", "00", "-1", "99", "60", "24", "-99", "255", "256", "000", "999", "-128", "9999", "0000", "1e99", "32768",
        "65535", "65536", "-9999", "99999", "1e308", "2147483647", "2147483648", "4294967295", "4294967296", "-999999999",
        "9999999999", "0000000000", "-2147483648", "18446744073709551615", "99999999999999999999",
    ];
    let (mut i, mut hit) = (0, false);
    while i < data.len() {
        let n = data[i..].iter().take_while(|b| b.is_ascii_digit()).count();
        if n > 0 && src.chance(1, 3) {
            let fit: Vec<&&str> = EDGES.iter().filter(|e| e.len() == n).collect();
            if !fit.is_empty() {
                let e = *src.pick(&fit);
                data[i..i + n].copy_from_slice(e.as_bytes());
                hit = true;
            }
        }
        i += n.max(1);
    }
    hit
}

fn c01(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    if src.chance(1, 20) {
        return hostile_values(src, ctx);
    }
    if src.draw(4000) == 3999 {
        return long_recording(src, ctx);
    }
    let mut data = match src.weighted(&[8, 6, 4, 2, 1]) {
        0 => {
            ctx.class("tokens and garbage");
            soup(src)
        }
        1 => {
            ctx.class("a recording, maybe damaged");
            let mut d = anything(src, ctx);
            damage(src, &mut d);
            d
        }
        2 => {
            // parts of a recording with garbage in between
            ctx.class("a recording and garbage");
            let r = rich::rich(src, &rich::Opts::default());
            let mut d = r.demo.bytes();
            let s = soup(src);
            let i = src.size(0, d.len());
            d.splice(i..i, s);
            d
        }
        3 => {
            ctx.class("hostile statistics");
            let mut d = rich::rich(
                src,
                &rich::Opts {
                    stats: 100,
                    doc: DocOpts {
                        players: 12,
                        wild: true,
                        odd_durations: true,
                        ..DocOpts::default()
                    },
                    ..rich::Opts::default()
                },
            )
            .demo
            .bytes();
            if src.chance(1, 3) {
                damage(src, &mut d);
            }
            d
        }
        _ => {
            ctx.class("random bytes");
            let n = src.size(0, 3000);
            src.bytes(n)
        }
    };
    if src.chance(1, 6) {
        ctx.class_if(edge_numbers(src, &mut data), "numbers at the edge of a range");
    }
    // cut around something interesting
    match src.weighted(&[6, 2, 3]) {
        0 => {}
        1 => {
            let n = src.size(0, data.len());
            data.truncate(n);
        }
        _ => {
            let t = *src.pick(TOKENS);
            let k = src.size(1, t.len());
            data.extend_from_slice(&t[..k]);
            let more = src.size(0, 30);
            let b = *src.pick(&[0u8, 1, b'0', 0xff, b'\n']);
            data.resize(data.len() + more, b);
            ctx.class("ends within a marker");
        }
    }
    if src.chance(1, 300) && !data.is_empty() {
        // large
        let unit = data.clone();
        while data.len() < 150_000 {
            data.extend_from_slice(&unit);
        }
        ctx.class("more than 150000 bytes");
    }
    if src.chance(1, 400) {
        // very many frames
        let n = *src.pick(&[70_000usize, 30_000, 140_000]);
        let mut unit = vec![];
        for _ in 0..src.size(1, 6) {
            let (d, k) = (dur(src), target(src));
            let body = match src.draw(3) {
                0 => vec![],
                1 => vec![*src.pick(&[1u8, 2, 8, 9, 14, 36, 0xff])],
                _ => src.pick(TOKENS).to_vec(),
            };
            put_frame(&mut unit, d, &k, &body[..body.len().min(20)]);
        }
        let first = src.chance(1, 2);
        let at = if first { 0 } else { data.len() };
        let frames: Vec<u8> = unit.iter().copied().cycle().take(n * 8).collect();
        data.splice(at..at, frames);
        ctx.class("tens of thousands of frames");
    }
    ctx.demo = data.clone();
    ctx.class_if(data.is_empty(), "empty");
    ctx.class_if(data.len() < 20, "shorter than 20 bytes");
    if !data.is_empty() {
        ctx.nontrivial(&data);
    }
    ctx.sample(|| format!("{} bytes: {:.400}", data.len(), format!("{:?}", &data[..data.len().min(120)])));
    api::snapshot(ctx, &data).map(|_| ())
}

/// An ordinary recording of tens of thousands of frames: the work must not grow with the square
/// of its size.
fn long_recording(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let o = rich::Opts {
        mix: Mix {
            anon: 0,
            frames: 200,
            ..Mix::default()
        },
        ..rich::Opts::default()
    };
    let mut r = rich::rich(src, &o);
    let unit: Vec<u8> = Demo {
        frames: timeline(src, &o.mix, &r.demo.roster),
        ..Demo::default()
    }
    .bytes();
    let spans = wire::walk(&unit).len().max(1);
    let reps = (src.size(20_000, 32_000) / spans).min(6_000_000 / unit.len().max(1));
    let at = r.demo.body_from;
    let tail: Vec<Frame> = r.demo.frames.split_off(at);
    let mut data = r.demo.bytes();
    data.extend(unit.repeat(reps));
    r.demo.frames = tail;
    data.extend(r.demo.bytes());
    ctx.demo = data.clone();
    ctx.class("an ordinary recording of tens of thousands of frames");
    ctx.nontrivial(&data.len().to_le_bytes());
    ctx.sample(|| format!("{} bytes, {} frames", data.len(), reps * spans));
    let before = std::mem::take(&mut ctx.fuel_used);
    api::snapshot(ctx, &data)?;
    let limit = 20_000_000 + 120 * data.len() as u64;
    ensure!(
        ctx.fuel_used <= limit,
        "a call takes {} edges for an ordinary recording of {} bytes and {} frames: more than {limit}",
        ctx.fuel_used,
        data.len(),
        reps * spans
    );
    ctx.fuel_used = ctx.fuel_used.max(before);
    Ok(())
}

/// Values that functions on parsed data accept.
fn hostile_values(src: &mut Src, ctx: &mut Ctx) -> Outcome {
    ctx.class("extreme values");
    let extreme = [i32::MAX, i32::MIN, 0, -1, 1, 1 << 30];
    let mut ps: Vec<api::Player> = vec![];
    while src.more(ps.len(), 0, 60, 6) {
        ps.push(api::Player {
            name: ktx::label(src),
            team: src.pick(&["a", "A", "", "İ"]).to_string(),
            color: [src.byte(), src.byte()],
            frags: *src.pick(&extreme),
            ping: *src.pick(&[0, 1, u32::MAX, u32::MAX - 1, 1 << 31]),
            is_bot: false,
            auth_username: None,
            auth_cc: None,
        });
    }
    ctx.nontrivial(format!("{ps:?}").as_bytes());
    ctx.sample(|| format!("{ps:?}"));
    call(ctx, "teams_from_players", &[], || m::teams_from_players(&ps))?;
    call(ctx, "Team::from", &[], || api::Team::from(ps.as_slice()))?;
    let doc = ktx::doc(
        src,
        DocOpts {
            wild: true,
            ..DocOpts::default()
        },
    );
    if let Ok(v) = KtxstatsV3::try_from(doc.text.as_str()) {
        call(ctx, "players_from_ktxstats", &[], || m::players_from_ktxstats(&v).is_ok())?;
        call(ctx, "teams_from_ktxstats", &[], || m::teams_from_ktxstats(&v).is_ok())?;
        call(ctx, "Server::from", &[], || api::Server::from(&v))?;
    }
    Ok(())
}
