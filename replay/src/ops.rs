//! Operation histories: generation and the text form used in replay files.
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Ins(i64),
    Rem(i64),
    Get(i64),
    GetMut(i64),
    /// start, count, step
    InsRange(i64, i64, i64),
    RemRange(i64, i64, i64),
    /// fresh container built from n entries: start, n, step, repeats of each key
    Bulk(i64, i64, i64, i64),
    /// collect through BPlusTreeMap / BPlusTreeSet from an unsorted sequence with repeats: n, key range, seed
    Collect(i64, i64, i64),
    Full,
    IterMix(i64),
    /// consume a clone (mode 0) or the container itself, which is then rebuilt (mode 1)
    IntoIter(i64, i64),
    Clear,
    /// clone, mutate one of the two, compare the other
    CloneMut(i64),
    CurNew(i64, i64),
    CurFirst(i64),
    CurLast(i64),
    CurNext(i64),
    CurPrev(i64),
    CurVal(i64),
    /// augmentation queries
    Query(i64),
    RemBy(i64),
    MutBy(i64),
    Visit(i64),
    /// union with a second set of n keys in 0..range
    Union(i64, i64, i64),
    Conc(i64),
}
use Op::*;

impl Op {
    pub fn text(&self) -> String {
        match self {
            Ins(a) => format!("insert {a}"),
            Rem(a) => format!("remove {a}"),
            Get(a) => format!("get {a}"),
            GetMut(a) => format!("get_mut {a}"),
            InsRange(a, b, c) => format!("insert_range {a} {b} {c}"),
            RemRange(a, b, c) => format!("remove_range {a} {b} {c}"),
            Bulk(a, b, c, d) => format!("bulk_load {a} {b} {c} {d}"),
            Collect(a, b, c) => format!("collect {a} {b} {c}"),
            Full => "full_check".into(),
            IterMix(a) => format!("iter_mix {a}"),
            IntoIter(a, b) => format!("into_iter {a} {b}"),
            Clear => "clear".into(),
            CloneMut(a) => format!("clone_mut {a}"),
            CurNew(a, b) => format!("cursor_new {a} {b}"),
            CurFirst(a) => format!("cursor_first {a}"),
            CurLast(a) => format!("cursor_last {a}"),
            CurNext(a) => format!("cursor_next {a}"),
            CurPrev(a) => format!("cursor_prev {a}"),
            CurVal(a) => format!("cursor_value {a}"),
            Query(a) => format!("query {a}"),
            RemBy(a) => format!("remove_by {a}"),
            MutBy(a) => format!("mut_by {a}"),
            Visit(a) => format!("visit {a}"),
            Union(a, b, c) => format!("union {a} {b} {c}"),
            Conc(a) => format!("concurrent {a}"),
        }
    }
    pub fn parse(s: &str) -> Option<Op> {
        let mut it = s.split_whitespace();
        let name = it.next()?;
        let a: Vec<i64> = it.map(|x| x.parse().unwrap_or(0)).collect();
        let g = |i: usize| a.get(i).copied().unwrap_or(0);
        Some(match name {
            "insert" => Ins(g(0)),
            "remove" => Rem(g(0)),
            "get" => Get(g(0)),
            "get_mut" => GetMut(g(0)),
            "insert_range" => InsRange(g(0), g(1), g(2)),
            "remove_range" => RemRange(g(0), g(1), g(2)),
            "bulk_load" => Bulk(g(0), g(1), g(2), g(3)),
            "collect" => Collect(g(0), g(1), g(2)),
            "full_check" => Full,
            "iter_mix" => IterMix(g(0)),
            "into_iter" => IntoIter(g(0), g(1)),
            "clear" => Clear,
            "clone_mut" => CloneMut(g(0)),
            "cursor_new" => CurNew(g(0), g(1)),
            "cursor_first" => CurFirst(g(0)),
            "cursor_last" => CurLast(g(0)),
            "cursor_next" => CurNext(g(0)),
            "cursor_prev" => CurPrev(g(0)),
            "cursor_value" => CurVal(g(0)),
            "query" => Query(g(0)),
            "remove_by" => RemBy(g(0)),
            "mut_by" => MutBy(g(0)),
            "visit" => Visit(g(0)),
            "union" => Union(g(0), g(1), g(2)),
            "concurrent" => Conc(g(0)),
            _ => return None,
        })
    }
    /// the property a crash, panic or hang inside this operation belongs to
    pub fn owner(&self) -> &'static str {
        match self {
            Ins(_) | InsRange(..) => "C02",
            Rem(_) | RemRange(..) => "C03",
            Get(_) | GetMut(_) => "C01",
            Bulk(..) | Collect(..) => "C06",
            Full => "C04",
            IterMix(_) => "C04",
            IntoIter(..) => "C05",
            Clear | CloneMut(_) => "C15",
            CurNew(..) | CurFirst(_) | CurLast(_) | CurNext(_) | CurPrev(_) | CurVal(_) => "C10",
            Query(_) | RemBy(_) | MutBy(_) => "AUG",
            Visit(_) => "C16",
            Union(..) => "C14",
            Conc(_) => "C13",
        }
    }
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: i64) -> i64 {
        if n <= 0 {
            return 0;
        }
        (self.next() % n as u64) as i64
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as i64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

#[derive(Clone)]
pub struct Trace {
    /// unit | digest | count | group
    pub kind: String,
    pub group: i64,
    /// the property looked at ("" for all)
    pub want: String,
    pub ops: Vec<Op>,
}

fn observe(p: &str, kind: &str, r: &mut Rng, range: i64, out: &mut Vec<Op>) {
    // observations weighted towards the property under check
    let pick = |r: &mut Rng, range: i64| r.below(range + 2) - 1;
    let s = r.below(1 << 30);
    let own = r.below(3) > 0;
    let choice = if own {
        match p {
            "C01" => 0,
            "C04" => 1,
            "C05" => 2,
            "C10" => 3,
            "C07" | "C08" | "C09" => 4,
            "C11" => 5,
            "C13" => 6,
            "C14" => 7,
            "C15" => 8,
            "C16" => 9,
            "C12" => [2, 8, 4, 0][r.below(4) as usize],
            _ => 0,
        }
    } else {
        r.below(10)
    };
    match choice {
        0 => {
            let k = pick(r, range);
            out.push(if r.below(3) == 0 { GetMut(k) } else { Get(k) })
        }
        1 => out.push(IterMix(s)),
        2 => out.push(IntoIter(if r.below(8) == 0 { 1 } else { 0 }, s)),
        3 => {
            let c = r.below(6);
            let k = pick(r, range);
            out.push(match r.below(12) {
                0 | 1 => CurNew(c, k),
                2 => CurFirst(c),
                3 => CurLast(c),
                4..=6 => CurNext(c),
                7..=9 => CurPrev(c),
                _ => CurVal(c),
            })
        }
        4 if kind == "count" || kind == "group" => out.push(match r.below(6) {
            0 => RemBy(s),
            1 => MutBy(s),
            _ => Query(s),
        }),
        6 => {
            if p == "C13" || r.below(8) == 0 {
                out.push(Conc(s))
            }
        }
        7 => out.push(Union(r.below(200), range.max(1), s)),
        8 => {
            if r.below(10) == 0 {
                out.push(Clear)
            } else {
                out.push(CloneMut(s))
            }
        }
        9 => out.push(Visit(s)),
        _ => out.push(Full),
    }
}

pub const KINDS: [&str; 4] = ["unit", "digest", "count", "group"];

/// Histories are a deterministic function of (property, index, seed).
pub fn generate(p: &str, idx: u64, seed: u64) -> Trace {
    let mut r = Rng(seed.wrapping_mul(0x2545f4914f6cdd1d) ^ (idx << 20) ^ 0xabcd);
    for _ in 0..4 {
        r.next();
    }
    let kind = match p {
        "C08" => "count",
        "C09" => "group",
        "C07" => ["digest", "digest", "count", "group"][r.below(4) as usize],
        "C06" => KINDS[r.below(4) as usize],
        "C12" => ["digest", "group", "digest", "unit"][r.below(4) as usize],
        _ => ["unit", "digest", "unit", "count", "unit", "group"][r.below(6) as usize],
    }
    .to_string();
    let group = [1, 2, 3, 7, 10, 40, 64, 100, 333, 1000, 5000, 100000][r.below(12) as usize];
    let mut o: Vec<Op> = Vec::new();
    // keys in ascending order leave nodes half full: the highest trees
    if p == "C02" && idx == 5 {
        o.extend([InsRange(0, 3_000_000, 1), Ins(-1), Ins(1_500_000), Rem(7), Get(2_999_999)]);
        return Trace { kind: "unit".into(), group, want: p.into(), ops: o };
    }
    // cheap shapes first, then larger ones
    let shape = match idx {
        0 => 0,
        1 => 5,
        2 => 3,
        3 => 6,
        4 => 7,
        _ => [0, 0, 1, 1, 2, 3, 3, 4, 5, 5, 6, 6, 7, 8, 9, 9][r.below(16) as usize],
    };
    match shape {
        // small random histories
        0 => {
            let range = [3, 20, 70, 150, 400, 900][r.below(6) as usize];
            // everything on the empty container first
            o.extend([Full, IterMix(1), IntoIter(0, 1), CurFirst(0), CurLast(1), CurNew(2, 5), CurNext(2), CurPrev(2)]);
            o.extend([CurVal(2), Query(3), Visit(3), CloneMut(4), Union(0, 5, 1), Union(4, 5, 1), Rem(3), Get(3), RemBy(1)]);
            let n = 200 + r.below(1500);
            let mut bias = 50;
            for _ in 0..n {
                if r.below(100) == 0 {
                    bias = [20, 50, 80][r.below(3) as usize];
                }
                let k = r.below(range);
                match r.below(10) {
                    0..=6 => o.push(if r.below(100) < bias { Rem(k) } else { Ins(k) }),
                    7 => o.push(Get(k)),
                    _ => observe(p, &kind, &mut r, range, &mut o),
                }
            }
        }
        // grow then drain in some order
        1 => {
            let n = [65, 130, 200, 700, 2100, 4300, 6000][r.below(7) as usize] + r.below(60);
            let mut keys: Vec<i64> = (0..n).map(|i| i * 2).collect();
            match r.below(4) {
                0 => {}
                1 => keys.reverse(),
                2 => r.shuffle(&mut keys),
                _ => {
                    let m = keys.len() / 2;
                    keys.rotate_left(m)
                }
            }
            for (i, k) in keys.iter().enumerate() {
                o.push(Ins(*k));
                if i % 97 == 0 {
                    observe(p, &kind, &mut r, 2 * n, &mut o);
                }
            }
            o.push(Full);
            match r.below(5) {
                0 => keys.sort(),
                1 => {
                    keys.sort();
                    keys.reverse()
                }
                2 => r.shuffle(&mut keys),
                3 => {
                    // from the middle outwards
                    keys.sort_by_key(|k| (k - n).abs())
                }
                _ => {
                    // towards the middle
                    keys.sort_by_key(|k| -(k - n).abs())
                }
            }
            let stop = if r.below(3) == 0 { r.below(keys.len() as i64) as usize } else { keys.len() };
            for (i, k) in keys[..stop].iter().enumerate() {
                o.push(Rem(*k));
                if i % 61 == 0 {
                    observe(p, &kind, &mut r, 2 * n, &mut o);
                }
                if i % 400 == 399 {
                    o.push(Full);
                }
            }
        }
        // oscillating random, medium size
        2 => {
            let range = 3000 + r.below(9000);
            for ph in 0..4 {
                let n = range;
                let ins = if ph % 2 == 0 { 85 } else { 12 };
                for i in 0..n {
                    let k = r.below(range);
                    o.push(if r.below(100) < ins { Ins(k) } else { Rem(k) });
                    if i % 40 == 0 {
                        observe(p, &kind, &mut r, range, &mut o);
                    }
                    if i % 1000 == 999 {
                        o.push(Full);
                    }
                }
            }
        }
        // bulk loads around the boundaries, then work on them
        3 => {
            for _ in 0..3 {
                let base = [0, 1, 63, 64, 65, 127, 128, 129, 640, 64 * 16, 64 * 17, 64 * 64, 64 * 65, 64 * 66, 64 * 65 * 2, 64 * 65 * 3][r.below(16) as usize];
                let n: i64 = (base + [0, 0, 0, 1, 2, -1, 33, 5][r.below(8) as usize]).max(0);
                o.push(Bulk(0, n, 2, 1 + (r.below(4) == 0) as i64));
                o.push(Full);
                let m = 1 + r.below(400);
                match r.below(4) {
                    0 => o.push(RemRange(2 * (n - m), m, 2)),
                    1 => o.push(RemRange(0, m, 2)),
                    2 => o.push(RemRange(2 * (n - 1), m, -2)),
                    _ => {
                        for _ in 0..m {
                            let k = r.below(2 * n + 2);
                            o.push(if r.below(3) > 0 { Rem(k) } else { Ins(k) });
                            if r.below(20) == 0 {
                                observe(p, &kind, &mut r, 2 * n + 2, &mut o);
                            }
                        }
                    }
                }
                o.push(Full);
                for _ in 0..6 {
                    observe(p, &kind, &mut r, 2 * n + 2, &mut o);
                }
            }
            o.push(Collect(r.below(600), 1 + r.below(500), r.below(1 << 30)));
            o.push(Full);
        }
        // three inner levels
        4 => {
            let n = 45_000 + r.below(60_000);
            match r.below(3) {
                0 => o.push(InsRange(0, n, 2)),
                1 => o.push(InsRange(2 * n, n, -2)),
                _ => o.push(Bulk(0, n, 2, 1)),
            }
            o.push(Full);
            for _ in 0..20 {
                observe(p, &kind, &mut r, 2 * n, &mut o);
            }
            for _ in 0..3 {
                let at = r.below(2 * n) & !1;
                let m = r.below(n / 3);
                o.push(RemRange(at, m, if r.below(2) == 0 { 2 } else { -2 }));
                o.push(Full);
                for _ in 0..10 {
                    observe(p, &kind, &mut r, 2 * n, &mut o);
                }
                for _ in 0..300 {
                    let k = r.below(2 * n);
                    o.push(if r.below(2) == 0 { Ins(k) } else { Rem(k) });
                }
                o.push(Full);
            }
        }
        // full two-level tree, one insertion somewhere: every inner split position
        5 => {
            for _ in 0..12 {
                let child = r.below(65);
                let pos = [0, 1, 31, 32, 33, 63, 62, 64][r.below(8) as usize];
                o.push(Bulk(0, 64 * 65, 2, 1));
                o.push(Ins((child * 64 + pos) * 2 - 1));
                o.push(Full);
                for _ in 0..3 {
                    observe(p, &kind, &mut r, 64 * 65 * 2, &mut o);
                }
                // repair of the two halves
                let m = r.below(2500);
                let at = r.below(64 * 65) * 2;
                o.push(RemRange(at, m, if r.below(2) == 0 { 2 } else { -2 }));
                o.push(Full);
                for _ in 0..3 {
                    observe(p, &kind, &mut r, 64 * 65 * 2, &mut o);
                }
            }
        }
        // full leaf, insertion at every position
        6 => {
            for _ in 0..30 {
                let leaves = 1 + r.below(3);
                o.push(Bulk(0, 64 * leaves, 2, 1));
                let at = r.below(64 * leaves * 2 + 2) - 1;
                o.push(Ins(at));
                o.push(Full);
                let m = r.below(64 * leaves);
                o.push(RemRange(r.below(64 * leaves) * 2, m, if r.below(2) == 0 { 2 } else { -2 }));
                o.push(Full);
                for _ in 0..4 {
                    observe(p, &kind, &mut r, 64 * leaves * 2, &mut o);
                }
            }
        }
        // cursors and hints across restructuring
        7 => {
            let range = 40 + r.below(3000);
            let n = 3000;
            for _ in 0..6 {
                o.push(CurNew(r.below(6), r.below(range)));
            }
            for i in 0..n {
                let k = r.below(range);
                match r.below(12) {
                    0..=3 => o.push(Ins(k)),
                    4..=6 => o.push(Rem(k)),
                    7 => o.push(Get(k)),
                    8 => o.push(GetMut(k)),
                    _ => observe(if r.below(2) == 0 { "C10" } else { p }, &kind, &mut r, range, &mut o),
                }
                if i % 500 == 250 {
                    o.push(if r.below(2) == 0 { InsRange(r.below(range), 300, 1) } else { RemRange(r.below(range), 300, 1) });
                }
                if i % 1500 == 1499 {
                    match r.below(3) {
                        0 => o.push(Clear),
                        1 => o.push(Bulk(0, r.below(range), 1, 1)),
                        _ => {}
                    }
                }
            }
        }
        // gap filling: insert into one place of a sparse container, then remove around it
        8 => {
            let n = 200 + r.below(5000);
            o.push(Bulk(0, n, 1000, 1));
            let c = r.below(n) * 1000;
            let m = 200 + r.below(700);
            for _ in 0..m {
                o.push(Ins(c + r.below(999)));
                if r.below(30) == 0 {
                    observe(p, &kind, &mut r, n * 1000, &mut o);
                }
            }
            o.push(Full);
            o.push(RemRange(c - 1000 * r.below(200), 400, 1000));
            o.push(RemRange(c, 1000, 1));
            o.push(Full);
            for _ in 0..10 {
                observe(p, &kind, &mut r, n * 1000, &mut o);
            }
        }
        // dense minimum-size trees: thin out everything, then remove in clusters
        _ => {
            let n = 2000 + r.below(9000);
            o.push(if r.below(2) == 0 { InsRange(0, n, 1) } else { InsRange(n, n, -1) });
            let keep = 2 + r.below(3);
            for k in 0..=n {
                if k % keep != 0 {
                    o.push(Rem(k));
                }
            }
            o.push(Full);
            for _ in 0..6 {
                let at = r.below(n);
                o.push(RemRange(at - at % keep, r.below(400), if r.below(2) == 0 { keep } else { -keep }));
                o.push(Full);
                for _ in 0..4 {
                    observe(p, &kind, &mut r, n, &mut o);
                }
                for _ in 0..50 {
                    o.push(Ins(r.below(n)));
                }
            }
            o.push(Full);
        }
    }
    o.push(Full);
    for _ in 0..4 {
        observe(p, &kind, &mut r, 300, &mut o);
    }
    if r.below(3) == 0 {
        o.push(IntoIter(1, r.below(1 << 30)));
    }
    Trace { kind, group, want: p.to_string(), ops: o }
}
