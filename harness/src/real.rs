//! The recordings that come with the repository, as seeds.
use std::sync::OnceLock;

use crate::engine::Src;
use crate::wire;

pub struct Real {
    pub name: String,
    pub data: Vec<u8>,
    pub spans: Vec<wire::Span>,
}

pub fn demos() -> &'static [Real] {
    static D: OnceLock<Vec<Real>> = OnceLock::new();
    D.get_or_init(|| {
        let mut v = vec![];
        if let Ok(dir) = std::fs::read_dir("/repo/tests/files") {
            for e in dir.flatten() {
                let name = e.file_name().to_string_lossy().to_string();
                if name.ends_with(".mvd") {
                    if let Ok(data) = std::fs::read(e.path()) {
                        let spans = wire::walk(&data);
                        v.push(Real { name, data, spans });
                    }
                }
            }
        }
        v.sort_by(|a, b| a.name.cmp(&b.name));
        v
    })
}

/// The frames around the roster, a run or a sample of later frames and maybe the end.
pub fn excerpt(src: &mut Src, max_frames: usize) -> Option<Vec<u8>> {
    let all = demos();
    if all.is_empty() {
        return None;
    }
    let r = &all[src.draw(all.len() as u64) as usize];
    let n = r.spans.len();
    if n < 10 {
        return Some(r.data.clone());
    }
    let mut out = vec![];
    let head = if src.chance(4, 5) { n.min(60) } else { 0 };
    if head > 0 {
        out.extend_from_slice(&r.data[..r.spans[head - 1].end]);
    }
    let room = max_frames.min(n - head);
    match src.weighted(&[3, 3]) {
        0 => {
            let len = src.size(0, room);
            let from = head + src.size(0, n - head - len);
            if len > 0 {
                out.extend_from_slice(&r.data[r.spans[from].start..r.spans[from + len - 1].end]);
            }
        }
        _ => {
            // frames that say something
            let talk = talking(r);
            let mut k = 0;
            while !talk.is_empty() && src.more(k, 0, room, room / 2 + 1) {
                let i = talk[src.draw(talk.len() as u64) as usize];
                let s = &r.spans[i];
                out.extend_from_slice(&r.data[s.start..s.end]);
                k += 1;
            }
        }
    }
    if src.chance(1, 2) {
        let tail = src.size(1, 40).min(n);
        out.extend_from_slice(&r.data[r.spans[n - tail].start..]);
    }
    Some(out)
}

fn talking(r: &Real) -> Vec<usize> {
    r.spans
        .iter()
        .enumerate()
        .filter(|(_, s)| s.end > s.body && matches!(r.data[s.body], 8 | 36 | 14 | 52 | 40))
        .map(|(i, _)| i)
        .collect()
}
