//! The public functions of the parser, called under the engine's guard.
use std::collections::BTreeMap;
use std::time::Duration;

use mvdparser::all as m;
pub use mvdparser::{Client, Player, Server, Settings, Team};

use crate::engine::{call, Ctx, Fail};

macro_rules! wrap {
    ($($name:ident : $f:path => $t:ty),* $(,)?) => {
        $(pub fn $name(ctx: &mut Ctx, d: &[u8]) -> Result<$t, Fail> {
            call(ctx, stringify!($name), d, || $f(d).map_err(|e| e.to_string()))
        })*
    };
}

type R<T> = Result<T, String>;

wrap! {
    clientinfo_strings: m::clientinfo_strings => R<Vec<String>>,
    clients: m::clients => R<Vec<Client>>,
    has_bot_players: m::has_bot_players => R<bool>,
    has_human_players: m::has_human_players => R<bool>,
    player_clients: m::player_clients => R<Vec<Client>>,
    player_names: m::player_names => R<Vec<String>>,
    spectator_clients: m::spectator_clients => R<Vec<Client>>,
    spectator_names: m::spectator_names => R<Vec<String>>,
    team_names: m::team_names => R<Vec<String>>,
    countdown_duration: m::countdown_duration => R<Duration>,
    demo_duration: m::demo_duration => R<Duration>,
    match_duration: m::match_duration => R<Duration>,
    match_duration_from_seeking: m::match_duration_from_seeking => R<Duration>,
    match_duration_from_ktxstats: m::match_duration_from_ktxstats => R<Duration>,
    filename: mvdparser::filename => R<String>,
    ktxstats_string: m::ktxstats_string => R<String>,
    ktxstats_v3: m::ktxstats_v3 => R<mvdparser::KtxstatsV3>,
    matchdate_string: m::matchdate_string => R<String>,
    players: m::players => R<Vec<Player>>,
    players_from_parsing: m::players_from_parsing => R<Vec<Player>>,
    server: m::server => R<Server>,
    serverinfo: m::serverinfo => R<Settings>,
    serverinfo_string: m::serverinfo_string => R<String>,
    teams: m::teams => R<Vec<Team>>,
}

/// Debug form of the parsed client info.
pub fn clientinfo(ctx: &mut Ctx, d: &[u8]) -> Result<R<Vec<String>>, Fail> {
    call(ctx, "clientinfo", d, || {
        m::clientinfo(d)
            .map(|v| v.iter().map(|c| format!("{c:?}")).collect())
            .map_err(|e| e.to_string())
    })
}

/// Seconds since the epoch.
pub fn timestamp(ctx: &mut Ctx, d: &[u8]) -> Result<R<(i64, u32)>, Fail> {
    call(ctx, "timestamp", d, || {
        m::timestamp(d)
            .map(|t| (t.timestamp(), t.timestamp_subsec_nanos()))
            .map_err(|e| e.to_string())
    })
}

pub fn timestamp_from_epoch(ctx: &mut Ctx, d: &[u8]) -> Result<R<(i64, u32)>, Fail> {
    call(ctx, "timestamp_from_epoch", d, || {
        m::timestamp_from_epoch(d)
            .map(|t| (t.timestamp(), t.timestamp_subsec_nanos()))
            .map_err(|e| e.to_string())
    })
}

pub fn matchdate(ctx: &mut Ctx, d: &[u8]) -> Result<R<(i64, u32)>, Fail> {
    call(ctx, "matchdate", d, || {
        m::matchdate(d)
            .map(|t| (t.timestamp(), t.timestamp_subsec_nanos()))
            .map_err(|e| e.to_string())
    })
}

pub fn is_aborted(ctx: &mut Ctx, d: &[u8]) -> Result<bool, Fail> {
    call(ctx, "is_aborted", d, || m::is_aborted(d))
}

pub fn is_paused(ctx: &mut Ctx, d: &[u8]) -> Result<bool, Fail> {
    call(ctx, "is_paused", d, || mvdparser::is_paused(d))
}

pub fn is_valid(ctx: &mut Ctx, d: &[u8]) -> Result<bool, Fail> {
    call(ctx, "is_valid", d, || m::is_valid(d))
}

pub fn has_clients(ctx: &mut Ctx, d: &[u8]) -> Result<bool, Fail> {
    call(ctx, "has_clients", d, || m::has_clients(d))
}

pub fn has_end_of_demo_print(ctx: &mut Ctx, d: &[u8]) -> Result<bool, Fail> {
    call(ctx, "has_end_of_demo_print", d, || m::has_end_of_demo_print(d))
}

/// (level, text)
pub fn prints(ctx: &mut Ctx, d: &[u8]) -> Result<Vec<(String, Vec<u8>)>, Fail> {
    let v = call(ctx, "prints", d, || m::prints(d))?;
    for p in &v {
        // level, text, zero
        let size = call(ctx, "byte_size", d, || p.byte_size())?;
        if size != p.content.len() + 2 {
            return Err(Fail(format!("a print of {} bytes takes {size} bytes", p.content.len())));
        }
    }
    Ok(v.into_iter().map(|p| (format!("{:?}", p.id), p.content)).collect())
}

pub fn frags(ctx: &mut Ctx, d: &[u8]) -> Result<BTreeMap<String, i32>, Fail> {
    let v = call(ctx, "frags_per_player_name", d, || m::frags_per_player_name(d))?;
    Ok(v.into_iter().collect())
}

pub fn pings(ctx: &mut Ctx, d: &[u8]) -> Result<R<BTreeMap<u8, u32>>, Fail> {
    let v = call(ctx, "ping_per_player_number", d, || {
        m::ping_per_player_number(d).map_err(|e| e.to_string())
    })?;
    Ok(v.map(|v| v.into_iter().collect()))
}

/// Counters in the order of `gen::FLAG_FIELDS`; the fields are private, so they are read from the
/// derived debug form.
pub fn flags(ctx: &mut Ctx, d: &[u8]) -> Result<BTreeMap<String, [u32; 7]>, Fail> {
    let v = call(ctx, "flag_events_per_player_name", d, || {
        m::flag_events_per_player_name(d)
    })?;
    let mut r = BTreeMap::new();
    for (k, e) in v {
        let text = format!("{e:?}");
        let mut n = [0u32; 7];
        let number = |at: usize| -> Option<u32> {
            let num: String = text[at..].chars().take_while(char::is_ascii_digit).collect();
            num.parse().ok()
        };
        // by name, or else by position
        let ends: Vec<usize> = text.match_indices(": ").map(|(i, _)| i + 2).collect();
        let by_name: Vec<Option<usize>> = crate::gen::FLAG_FIELDS
            .iter()
            .map(|f| ends.iter().copied().find(|e| text[..*e].ends_with(&format!(" {f}: "))))
            .collect();
        let at: Vec<usize> = match by_name.iter().copied().collect::<Option<Vec<usize>>>() {
            Some(v) => v,
            None => ends,
        };
        if at.len() != n.len() {
            return Err(Fail(format!("unknown counters in {text}")));
        }
        for (n, at) in n.iter_mut().zip(at) {
            *n = number(at).ok_or_else(|| Fail(format!("bad counter in {text}")))?;
        }
        r.insert(k, n);
    }
    Ok(r)
}

/// Every public function on one input; element order of lists is kept, maps are sorted.
pub const SNAP: usize = 36;

pub fn snap_one(ctx: &mut Ctx, d: &[u8], i: usize) -> Result<String, Fail> {
    macro_rules! s {
        ($($k:expr => $e:expr),* $(,)?) => {
            match i { $($k => format!("{}: {:?}", stringify!($e), $e),)* _ => String::new() }
        };
    }
    Ok(s! {
        0 => clientinfo_strings(ctx, d)?,
        1 => clients(ctx, d)?,
        2 => has_bot_players(ctx, d)?,
        3 => has_human_players(ctx, d)?,
        4 => player_clients(ctx, d)?,
        5 => player_names(ctx, d)?,
        6 => spectator_clients(ctx, d)?,
        7 => spectator_names(ctx, d)?,
        8 => team_names(ctx, d)?,
        9 => countdown_duration(ctx, d)?,
        10 => demo_duration(ctx, d)?,
        11 => match_duration(ctx, d)?,
        12 => match_duration_from_seeking(ctx, d)?,
        13 => match_duration_from_ktxstats(ctx, d)?,
        14 => filename(ctx, d)?,
        15 => ktxstats_string(ctx, d)?,
        16 => ktxstats_v3(ctx, d)?,
        17 => matchdate_string(ctx, d)?,
        18 => players(ctx, d)?,
        19 => players_from_parsing(ctx, d)?,
        20 => server(ctx, d)?,
        21 => serverinfo(ctx, d)?,
        22 => serverinfo_string(ctx, d)?,
        23 => teams(ctx, d)?,
        24 => clientinfo(ctx, d)?,
        25 => timestamp(ctx, d)?,
        26 => timestamp_from_epoch(ctx, d)?,
        27 => matchdate(ctx, d)?,
        28 => is_aborted(ctx, d)?,
        29 => is_paused(ctx, d)?,
        30 => is_valid(ctx, d)?,
        31 => has_clients(ctx, d)?,
        32 => has_end_of_demo_print(ctx, d)?,
        33 => prints(ctx, d)?,
        34 => (frags(ctx, d)?, pings(ctx, d)?),
        35 => flags(ctx, d)?,
    })
}

pub fn snapshot(ctx: &mut Ctx, d: &[u8]) -> Result<Vec<String>, Fail> {
    (0..SNAP).map(|i| snap_one(ctx, d, i)).collect()
}
