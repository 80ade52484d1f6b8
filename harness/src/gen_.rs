//! Workload generators: hostile but valid polylines.
use crate::geom::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::f64::consts::{FRAC_PI_2, PI, TAU};

pub const Q: f64 = 0.41421356237309503; // tan(pi/8): quarter arc

pub fn star(r: &mut Rng, parc: f64) -> Vec<V> {
    let n = r.int(3, 12) as usize;
    let rmin = r.range(1.0, 4.0);
    let mut out = vec![];
    let off = r.range(0.0, TAU);
    for i in 0..n {
        let a = off + TAU * (i as f64 + r.range(-0.35, 0.35)) / n as f64;
        let rad = r.range(rmin, 6.0);
        let b = if r.chance(parc) { r.sign() * r.range(0.05, 1.0) } else { 0.0 };
        out.push([rad * a.cos(), rad * a.sin(), b]);
    }
    out
}

pub fn twoopt(r: &mut Rng, parc: f64) -> Vec<V> {
    let n = r.int(4, 14) as usize;
    let mut pts: Vec<P> = (0..n).map(|_| p(r.range(-6.0, 6.0), r.range(-6.0, 6.0))).collect();
    for _ in 0..200 {
        let mut changed = false;
        for i in 0..n {
            for j in (i + 2)..n {
                if i == 0 && j == n - 1 {
                    continue;
                }
                let (a, b) = (pts[i], pts[i + 1]);
                let (c, d) = (pts[j], pts[(j + 1) % n]);
                if a.dist(c) + b.dist(d) < a.dist(b) + c.dist(d) - 1e-12 {
                    pts[i + 1..=j].reverse();
                    changed = true;
                }
            }
        }
        if !changed {
            break;
        }
    }
    pts.iter()
        .map(|q| {
            let b = if r.chance(parc) { r.sign() * r.range(0.02, 0.6) } else { 0.0 };
            [q.x, q.y, b]
        })
        .collect()
}

/// outline of a random polyomino: integer coordinates, axis aligned edges
pub fn polyomino(r: &mut Rng, w: i64, h: i64) -> Vec<V> {
    loop {
        let k = r.int(1, (w * h * 2 / 3).max(1)) as usize;
        let mut cells: BTreeSet<(i64, i64)> = BTreeSet::new();
        cells.insert((r.int(0, w - 1), r.int(0, h - 1)));
        let mut tries = 0;
        while cells.len() < k && tries < 400 {
            tries += 1;
            let v: Vec<_> = cells.iter().copied().collect();
            let c = r.pick(&v);
            let d = r.pick(&[(1, 0), (-1, 0), (0, 1), (0, -1)]);
            let n = (c.0 + d.0, c.1 + d.1);
            if n.0 >= 0 && n.0 < w && n.1 >= 0 && n.1 < h {
                cells.insert(n);
            }
        }
        // directed edges, interior on the left
        let mut next: BTreeMap<(i64, i64), (i64, i64)> = BTreeMap::new();
        let mut ok = true;
        let mut add = |a, b, ok: &mut bool| {
            if next.insert(a, b).is_some() {
                *ok = false;
            }
        };
        for &(x, y) in &cells {
            if !cells.contains(&(x, y - 1)) {
                add((x, y), (x + 1, y), &mut ok);
            }
            if !cells.contains(&(x + 1, y)) {
                add((x + 1, y), (x + 1, y + 1), &mut ok);
            }
            if !cells.contains(&(x, y + 1)) {
                add((x + 1, y + 1), (x, y + 1), &mut ok);
            }
            if !cells.contains(&(x - 1, y)) {
                add((x, y + 1), (x, y), &mut ok);
            }
        }
        if !ok {
            continue;
        }
        let start = *next.keys().next().unwrap();
        let mut cur = start;
        let mut out = vec![];
        loop {
            out.push([cur.0 as f64, cur.1 as f64, 0.0]);
            cur = next[&cur];
            if cur == start {
                break;
            }
        }
        if out.len() != next.len() {
            continue; // holes
        }
        return out;
    }
}

/// drop collinear vertexes of an axis aligned outline with probability pr each
pub fn merge_collinear(r: &mut Rng, v: &[V], pr: f64) -> Vec<V> {
    let mut out: Vec<V> = vec![];
    let n = v.len();
    for i in 0..n {
        let a = v[(i + n - 1) % n];
        let b = v[i];
        let c = v[(i + 1) % n];
        let cr = (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]);
        if cr == 0.0 && a[2] == 0.0 && b[2] == 0.0 && r.chance(pr) {
            continue;
        }
        out.push(b);
    }
    out
}

/// replace corners of a line polygon by tangent arcs of cut length t (probability pr each)
pub fn fillet(r: &mut Rng, v: &[V], t: f64, pr: f64) -> Vec<V> {
    let n = v.len();
    let mut out = vec![];
    for i in 0..n {
        let a = p(v[(i + n - 1) % n][0], v[(i + n - 1) % n][1]);
        let b = p(v[i][0], v[i][1]);
        let c = p(v[(i + 1) % n][0], v[(i + 1) % n][1]);
        let (u, w) = ((b - a).unit(), (c - b).unit());
        let turn = u.cross(w).atan2(u.dot(w));
        if turn.abs() > 1e-6 && r.chance(pr) && t < 0.5 * a.dist(b) + 1e-12 && t < 0.5 * b.dist(c) + 1e-12 {
            let s = b - u * t;
            let e = b + w * t;
            let k = (turn / 4.0).tan();
            // avoid zero length edges when both neighbours are cut at the middle
            if out.last().map(|q: &V| p(q[0], q[1]).dist(s) < 1e-9).unwrap_or(false) {
                out.pop();
            }
            out.push([s.x, s.y, k]);
            out.push([e.x, e.y, 0.0]);
        } else {
            out.push(v[i]);
        }
    }
    if out.len() > 2 {
        let (f, l) = (out[0], *out.last().unwrap());
        if p(f[0], f[1]).dist(p(l[0], l[1])) < 1e-9 {
            out.pop();
        }
    }
    out
}

/// turn some edges into arcs
pub fn bump(r: &mut Rng, v: &[V], pr: f64, bulges: &[f64]) -> Vec<V> {
    v.iter()
        .map(|q| if q[2] == 0.0 && r.chance(pr) { [q[0], q[1], r.pick(bulges) * r.sign()] } else { *q })
        .collect()
}

pub fn circle(c: P, rad: f64, a: f64, n: usize) -> Vec<V> {
    let k = (TAU / n as f64 / 4.0).tan();
    (0..n)
        .map(|i| {
            let q = polar(c, rad, a + TAU * i as f64 / n as f64);
            [q.x, q.y, if n == 2 { 1.0 } else { k }]
        })
        .collect()
}
pub fn rect(x0: f64, y0: f64, x1: f64, y1: f64) -> Vec<V> {
    vec![[x0, y0, 0.0], [x1, y0, 0.0], [x1, y1, 0.0], [x0, y1, 0.0]]
}
pub fn capsule(l: f64, rad: f64) -> Vec<V> {
    vec![[0.0, -rad, 0.0], [l, -rad, 1.0], [l, rad, 0.0], [0.0, rad, 1.0]]
}
pub fn sector(c: P, r0: f64, r1: f64, a: f64, sw: f64) -> Vec<V> {
    // annular sector (sw <= pi)
    let k = (sw / 4.0).tan();
    let (q0, q1) = (polar(c, r1, a), polar(c, r1, a + sw));
    let (q2, q3) = (polar(c, r0, a + sw), polar(c, r0, a));
    vec![[q0.x, q0.y, k], [q1.x, q1.y, 0.0], [q2.x, q2.y, -k], [q3.x, q3.y, 0.0]]
}

pub fn special(r: &mut Rng) -> Vec<V> {
    match r.below(12) {
        0 => circle(p(0.0, 0.0), r.range(1.0, 5.0), r.range(0.0, TAU), 2),
        1 => {
            let n = r.int(3, 6) as usize;
            circle(p(0.0, 0.0), r.range(1.0, 5.0), r.range(0.0, TAU), n)
        }
        2 => capsule(r.range(1.0, 8.0), r.range(0.4, 3.0)),
        3 => {
            let r0 = r.range(1.0, 4.0);
            sector(p(0.0, 0.0), r0, r0 + r.range(0.5, 3.0), r.range(0.0, TAU), r.range(0.5, PI))
        }
        4 => {
            // D shape
            let h = r.range(1.0, 5.0);
            vec![[0.0, -h, r.range(0.1, 1.0)], [0.0, h, 0.0]]
        }
        5 => {
            // lens or crescent
            let h = r.range(1.0, 5.0);
            let b1 = r.range(0.2, 1.0);
            let b2 = r.range(-0.9, 1.0);
            let b2 = if b2 < 0.0 && -b2 > b1 - 0.1 { b1 * 0.5 } else { b2 };
            vec![[0.0, -h, b1], [0.0, h, b2]]
        }
        6 => {
            // rounded rectangle
            let (w, h) = (r.range(2.0, 10.0), r.range(2.0, 10.0));
            let t = r.range(0.1, 0.49) * w.min(h);
            let v = rect(0.0, 0.0, w, h);
            fillet(r, &v, t, 1.0)
        }
        7 => {
            // comb
            let teeth = r.int(2, 4);
            let mut v = vec![[0.0, 0.0, 0.0]];
            let hgt = r.range(2.0, 4.0);
            v.push([(2 * teeth - 1) as f64, 0.0, 0.0]);
            for i in (0..teeth).rev() {
                let x = 2.0 * i as f64;
                v.push([x + 1.0, hgt, if r.chance(0.5) { 1.0 } else { 0.0 }]);
                v.push([x, hgt, 0.0]);
                if i > 0 {
                    let b = if r.chance(0.4) { r.sign() * 0.8 } else { 0.0 };
                    v.push([x, 1.0, b]);
                    v.push([x - 1.0, 1.0, 0.0]);
                }
            }
            v
        }
        8 => {
            // C shape: annular sectors of more than half a turn, made of two arcs each side
            let (r1, r0) = (r.range(3.0, 5.0), r.range(1.0, 2.5));
            let gap = r.range(0.3, 1.2);
            let sw = (TAU - gap) / 2.0;
            let k = (sw / 4.0).tan();
            let o = p(0.0, 0.0);
            let a = gap / 2.0;
            let q = [
                (polar(o, r1, a), k),
                (polar(o, r1, a + sw), k),
                (polar(o, r1, a + 2.0 * sw), 0.0),
                (polar(o, r0, a + 2.0 * sw), -k),
                (polar(o, r0, a + sw), -k),
                (polar(o, r0, a), 0.0),
            ];
            q.iter().map(|(q, b)| [q.x, q.y, *b]).collect()
        }
        9 => {
            // gear
            let n = r.int(3, 7) as usize;
            let (r0, r1) = (r.range(2.0, 3.0), r.range(3.5, 5.5));
            let mut v = vec![];
            let k = (TAU / (2 * n) as f64 / 4.0).tan();
            for i in 0..n {
                let a = TAU * i as f64 / n as f64;
                let b = a + PI / n as f64;
                for (rad, th, bl) in [(r0, a, 0.0), (r1, a, k), (r1, b, 0.0), (r0, b, k)] {
                    let q = polar(p(0.0, 0.0), rad, th);
                    v.push([q.x, q.y, bl]);
                }
            }
            v
        }
        10 => {
            // dumbbell: two lobes joined by a neck
            let neck = r.range(0.15, 1.5);
            let l = r.range(1.0, 4.0);
            let lobe = r.range(1.0, 2.5);
            let mut v = vec![];
            let w = lobe * 2.0 + neck;
            for q in [
                [-l - w, -lobe - neck / 2.0],
                [-l, -lobe - neck / 2.0],
                [-l, -neck / 2.0],
                [l, -neck / 2.0],
                [l, -lobe - neck / 2.0],
                [l + w, -lobe - neck / 2.0],
                [l + w, lobe + neck / 2.0],
                [l, lobe + neck / 2.0],
                [l, neck / 2.0],
                [-l, neck / 2.0],
                [-l, lobe + neck / 2.0],
                [-l - w, lobe + neck / 2.0],
            ] {
                v.push([q[0], q[1], 0.0]);
            }
            if r.chance(0.4) {
                let t = neck * 0.3;
                fillet(r, &v, t, 0.7)
            } else {
                v
            }
        }
        _ => {
            // zig-zag ribbon
            let n = r.int(3, 7);
            let (amp, th) = (r.range(0.5, 2.5), r.range(0.4, 1.2));
            let mut v = vec![];
            for i in 0..n {
                v.push([1.5 * i as f64, if i % 2 == 0 { 0.0 } else { amp }, 0.0]);
            }
            for i in (0..n).rev() {
                v.push([1.5 * i as f64, th + if i % 2 == 0 { 0.0 } else { amp }, 0.0]);
            }
            v
        }
    }
}

/// split random segments (adds redundant vertexes without changing the curve)
/// short segments: arcs become runs of chords or of shorter arcs, lines are split
fn tessellate(r: &mut Rng, v: &[V], closed: bool) -> Vec<V> {
    let n = v.len();
    let size = 8.0;
    let h = size * r.logrange(2e-3, 2e-2);
    let (pc, pa, pl) = (r.pick(&[1.0, 1.0, 0.5, 0.0]), r.pick(&[1.0, 0.6]), r.pick(&[0.0, 0.1, 0.3]));
    let mut out: Vec<V> = vec![];
    for i in 0..n {
        let last_open = !closed && i == n - 1;
        let s = Seg::new(v[i], v[(i + 1) % n]);
        if last_open || !r.chance(if matches!(s, Seg::L { .. }) { pl } else { pa }) {
            out.push(v[i]);
            continue;
        }
        let mut m = (s.len() / h).ceil().min(60.0);
        let mut b = 0.0;
        if let Seg::A { sw, .. } = s {
            m = m.max((sw.abs() / 0.25).ceil());
            if !r.chance(pc) {
                b = (sw / m / 4.0).tan();
            }
        }
        for k in 0..m as usize {
            let q = if k == 0 { p(v[i][0], v[i][1]) } else { s.at(k as f64 / m) };
            out.push([q.x, q.y, b]);
        }
    }
    out
}

pub fn subdivide(r: &mut Rng, v: &[V], closed: bool, pr: f64) -> Vec<V> {
    let n = v.len();
    let mut out = vec![];
    for i in 0..n {
        let last_open = !closed && i == n - 1;
        if last_open || !r.chance(pr) {
            out.push(v[i]);
            continue;
        }
        let s = Seg::new(v[i], v[(i + 1) % n]);
        let t = r.pick(&[0.5, 0.25, 0.7]);
        let q = s.at(t);
        match s {
            Seg::L { .. } => {
                out.push([v[i][0], v[i][1], v[i][2]]);
                out.push([q.x, q.y, 0.0]);
            }
            Seg::A { sw, .. } => {
                out.push([v[i][0], v[i][1], (sw * t / 4.0).tan()]);
                out.push([q.x, q.y, (sw * (1.0 - t) / 4.0).tan()]);
            }
        }
    }
    out
}

#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    /// arbitrary coordinates
    General,
    /// integer (or half integer) coordinates, axis aligned: contacts and overlaps are frequent
    Grid,
}

/// outlines of many vertexes
fn raw_big(r: &mut Rng, style: Style) -> Vec<V> {
    if style == Style::Grid {
        let (w, h) = (r.int(5, 12), r.int(5, 12));
        let v = polyomino(r, w, h);
        let pr = r.f();
        let v = merge_collinear(r, &v, pr);
        return match r.below(3) {
            0 => v,
            1 => fillet(r, &v, 0.25, 0.6),
            _ => bump(r, &v, 0.2, &[0.25, 0.5, Q, 0.2]),
        };
    }
    match r.below(7) {
        k @ 0..=2 => {
            let n = r.int(40, 160) as usize;
            let big = 3.0 + 0.15 * n as f64;
            let off = r.range(0.0, TAU);
            (0..n)
                .map(|i| {
                    let a = off + TAU * (i as f64 + r.range(-0.25, 0.25)) / n as f64;
                    let rad = big * r.range(0.85, 1.0);
                    let b = if k > 0 && r.chance(0.4) { r.sign() * r.range(0.05, 0.3) } else { 0.0 };
                    [rad * a.cos(), rad * a.sin(), b]
                })
                .collect()
        }
        3 => {
            // gear
            let k = r.int(10, 40) as usize;
            let r1 = 3.0 + 0.5 * k as f64;
            let r0 = r1 * r.range(0.75, 0.92);
            let arc = r.chance(0.6);
            let st = TAU / k as f64;
            let mut v = vec![];
            for i in 0..k {
                for (f, rad) in [(0.0, r0), (0.5, r1)] {
                    let a = st * (i as f64 + f);
                    let b = if arc { (st * 0.4 / 4.0).tan() } else { 0.0 };
                    v.push([rad * a.cos(), rad * a.sin(), b]);
                    v.push([rad * (a + 0.4 * st).cos(), rad * (a + 0.4 * st).sin(), 0.0]);
                }
            }
            v
        }
        4 => {
            let (w, h) = (r.int(6, 11), r.int(6, 11));
            let v = polyomino(r, w, h);
            let v = merge_collinear(r, &v, 1.0);
            let (t, pr) = (r.range(0.1, 0.45), r.f());
            fillet(r, &v, t, pr)
        }
        5 => {
            // comb
            let k = r.int(10, 40);
            let mut v = vec![];
            for i in 0..k {
                let x = i as f64 * 1.3;
                let y = r.range(2.0, 6.0);
                let b = if r.chance(0.3) { -1.0 } else { 0.0 };
                v.extend([[x, 0.0, 0.0], [x, y, b], [x + 0.7, y + r.range(0.0, 0.2), 0.0], [x + 0.7, 0.0, 0.0]]);
            }
            v.extend([[k as f64 * 1.3, -2.0, 0.0], [-1.0, -2.0, 0.0]]);
            v
        }
        _ => {
            r.big = false;
            let mut v = raw_closed(r, style);
            r.big = true;
            while v.len() < 40 {
                v = subdivide(r, &v, true, 0.9);
            }
            v
        }
    }
}

fn raw_closed(r: &mut Rng, style: Style) -> Vec<V> {
    if r.big {
        return raw_big(r, style);
    }
    match style {
        Style::General => match r.below(10) {
            0 | 1 => star(r, 0.0),
            2 | 3 => star(r, 0.6),
            4 => twoopt(r, 0.0),
            5 | 6 => twoopt(r, 0.5),
            7 => {
                let v = polyomino(r, 4, 4);
                let v = merge_collinear(r, &v, 1.0);
                let t = r.range(0.1, 0.45);
                let pr = r.f();
                fillet(r, &v, t, pr)
            }
            _ => special(r),
        },
        Style::Grid => {
            let w = r.int(1, 4);
            let h = r.int(1, 4);
            let v = polyomino(r, w, h);
            let pr = r.f();
            let pr = if r.chance(0.5) { 1.0 } else { pr };
            let v = merge_collinear(r, &v, pr);
            match r.below(5) {
                0 | 1 => v,
                2 => fillet(r, &v, 0.25, 0.6),
                3 => bump(r, &v, 0.35, &[0.25, 0.5, Q, 0.2]),
                _ => {
                    if r.chance(0.5) {
                        let (cx, cy) = (r.int(0, 3) as f64, r.int(0, 3) as f64);
                        let c = p(cx, cy);
                        let rad = r.int(1, 2) as f64;
                        let a = r.pick(&[0.0, FRAC_PI_2, PI]);
                        let n = r.pick(&[2, 2, 4]);
                        let mut v = circle(c, rad, a, n);
                        // exact grid coordinates
                        for q in v.iter_mut() {
                            q[0] = (q[0] * 2.0).round() / 2.0;
                            q[1] = (q[1] * 2.0).round() / 2.0;
                        }
                        v
                    } else {
                        let l = r.int(1, 4) as f64;
                        capsule(l, r.pick(&[0.5, 1.0]))
                    }
                }
            }
        }
    }
}

/// joints that are neither tangent nor clearly angled: where pieces meet within the tolerances
fn almost_tangent(pa: &Path) -> bool {
    let n = pa.segs.len();
    (0..n).any(|i| {
        if i + 1 == n && !pa.closed {
            return false;
        }
        let (u, w) = (pa.segs[i].tan(1.0), pa.segs[(i + 1) % n].tan(0.0));
        let a = u.cross(w).atan2(u.dot(w)).abs();
        a > 1e-7 && a < 0.02
    })
}

/// almost flat arcs (radius of many thousand times the size) are below the resolution of the library
fn flatten(v: &mut [V]) {
    for q in v.iter_mut() {
        if q[2].abs() < 2e-3 {
            q[2] = 0.0;
        }
    }
}

/// simple closed polyline, guaranteed clearance `m` (relative to a natural size of about 10)
pub fn closed(r: &mut Rng, style: Style, m: f64) -> Path {
    loop {
        let mut v = raw_closed(r, style);
        if v.len() < 2 {
            continue;
        }
        if style == Style::General {
            if r.chance(0.2) {
                v = subdivide(r, &v, true, 0.3);
            }
        } else if r.chance(0.15) {
            v = subdivide(r, &v, true, 0.3);
        }
        if !r.fine && !r.big && v.len() <= 8 && r.chance(0.1) {
            all_arcs(r, &mut v);
        }
        flatten(&mut v);
        let pa = Path::new(v.clone(), true);
        if !is_simple(&pa, m) || pa.area().abs() < 0.2 {
            continue;
        }
        if style == Style::General && almost_tangent(&pa) {
            continue;
        }
        if r.chance(0.5) {
            v = reverse(&v, true);
        }
        if r.chance(0.3) {
            v = mirror(&v);
        }
        if r.fine {
            v = tessellate(r, &v, true);
        }
        let k = r.below(v.len());
        v = rotate(&v, k);
        return Path::new(v, true);
    }
}

/// every segment becomes an arc, mostly hollow or mostly round
fn all_arcs(r: &mut Rng, v: &mut [V]) {
    let s = r.sign();
    let mixed = r.chance(0.3);
    let same = if r.chance(0.4) { Some(r.pick(&[0.2, 0.25, 0.41421356237309503, 0.5])) } else { None };
    for q in v.iter_mut() {
        let b = same.unwrap_or_else(|| if r.chance(0.5) { r.pick(&[0.2, 0.25, 0.41421356237309503, 0.5]) } else { r.range(0.05, 0.6) });
        q[2] = if mixed { r.sign() * b } else { s * b };
    }
}

/// random open polyline; `simple` demands no self contact
pub fn open(r: &mut Rng, style: Style, simple: bool, m: f64) -> Path {
    loop {
        let n = if r.big { r.int(30, 120) } else { r.int(2, 9) } as usize;
        let mut v: Vec<V> = vec![];
        let kind = r.below(4);
        match (style, if r.big && simple { 0 } else { kind }) {
            (Style::General, 0) => {
                // piece of a closed one
                let c = closed(r, style, m);
                let k = r.int(2, c.v.len().max(2) as i64) as usize;
                v = c.v[..k.min(c.v.len())].to_vec();
            }
            (Style::General, _) => {
                let mut q = p(r.range(-5.0, 5.0), r.range(-5.0, 5.0));
                let mut dir = r.range(0.0, TAU);
                let parc = r.pick(&[0.0, 0.4, 0.8]);
                for _ in 0..n {
                    let b = if r.chance(parc) { r.sign() * r.range(0.05, 1.0) } else { 0.0 };
                    v.push([q.x, q.y, b]);
                    dir += r.range(-2.2, 2.2);
                    q = q + polar(p(0.0, 0.0), r.range(0.5, 5.0), dir);
                }
            }
            (Style::Grid, _) => {
                let mut q = (r.int(-2, 3), r.int(-2, 3));
                for _ in 0..n {
                    let b = if r.chance(0.25) { r.sign() * r.pick(&[1.0, 0.5, Q]) } else { 0.0 };
                    v.push([q.0 as f64, q.1 as f64, b]);
                    let d = r.pick(&[(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, 1), (2, 0), (0, 2)]);
                    q = (q.0 + d.0, q.1 + d.1);
                }
            }
        }
        if v.len() < 2 {
            continue;
        }
        flatten(&mut v);
        let pa = Path::new(v, false);
        if pa.segs.iter().any(|s| s.len() < m) {
            continue;
        }
        if simple && !is_simple(&pa, m) {
            continue;
        }
        if style == Style::General && almost_tangent(&pa) {
            continue;
        }
        if r.fine {
            return Path::new(tessellate(r, &pa.v, false), false);
        }
        return pa;
    }
}

/// single precision has no digits left far from the origin
pub static NO_FAR: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn far(r: &mut Rng, p: f64) -> bool {
    !r.fine && !r.big && !NO_FAR.load(std::sync::atomic::Ordering::Relaxed) && r.chance(p)
}

/// random rigid motion plus scale applied to several paths at once
pub fn place(r: &mut Rng, ps: &[&Path], scale: (f64, f64), shift: f64) -> (Vec<Path>, f64) {
    let far = far(r, 0.05);
    place_at(r, ps, scale, shift, far)
}
/// for degenerate contacts: far from the origin the round-off of the coordinates is magnified at
/// exact tangencies and nearly collinear lines beyond the tolerance
pub fn place_near(r: &mut Rng, ps: &[&Path], scale: (f64, f64), shift: f64) -> (Vec<Path>, f64) {
    place_at(r, ps, scale, shift, false)
}
fn place_at(r: &mut Rng, ps: &[&Path], scale: (f64, f64), shift: f64, far: bool) -> (Vec<Path>, f64) {
    // short segments stay short
    let scale = if r.fine { (scale.0 * 0.1, scale.0 * 2.0) } else { scale };
    let k = r.logrange(scale.0, scale.1);
    let rot = r.range(0.0, TAU);
    let (mut tx, mut ty) = (r.range(-shift, shift) * k, r.range(-shift, shift) * k);
    if far {
        // far from the origin, as in survey coordinates
        let m = r.logrange(1e3, 3e5);
        (tx, ty) = (r.sign() * m * r.range(0.3, 1.0), r.sign() * m * r.range(0.3, 1.0));
    }
    (ps.iter().map(|q| Path::new(transform(&q.v, k, rot, tx, ty), q.closed)).collect(), k)
}

/// any polyline, valid input for queries and edits: self crossing, repeated vertexes, zero length
/// arcs, two vertex circles, collinear and concentric runs, very flat arcs, open or closed
pub fn wild(r: &mut Rng) -> Path {
    let mut kind = r.below(12);
    if r.big && (kind == 3 || kind == 4) {
        kind = 0;
    }
    let (mut v, closed_): (Vec<V>, bool) = match kind {
        0 | 1 => {
            let s = if r.chance(0.5) { Style::General } else { Style::Grid };
            let q = closed(r, s, 1e-3);
            (q.v, true)
        }
        2 => {
            let s = if r.chance(0.5) { Style::General } else { Style::Grid };
            let q = open(r, s, false, 1e-3);
            (q.v, false)
        }
        3 => (special(r), r.chance(0.8)),
        4 => {
            let n = r.pick(&[2, 2, 3, 4, 6]);
            let c = p(r.range(-3.0, 3.0), r.range(-3.0, 3.0));
            let rad = r.logrange(0.05, 20.0);
            let a = if r.chance(0.5) { r.below(8) as f64 * PI / 4.0 } else { r.range(0.0, TAU) };
            let turns = r.int(1, 3) as usize;
            let one = circle(c, rad, a, n);
            let mut v = vec![];
            for _ in 0..turns {
                v.extend_from_slice(&one);
            }
            if r.chance(0.5) {
                v = reverse(&v, true);
            }
            (v, r.chance(0.8))
        }
        5..=7 => {
            // arbitrary vertexes
            let n = if r.big { r.int(20, 150) } else { r.int(1, 12) } as usize;
            let parc = r.pick(&[0.0, 0.5, 0.9]);
            let v = (0..n)
                .map(|_| {
                    let b = if r.chance(parc) {
                        r.sign() * if r.chance(0.2) { r.pick(&[1.0, Q, 0.5]) } else if r.chance(0.1) { r.logrange(1e-6, 1e-2) } else { r.f() }
                    } else {
                        0.0
                    };
                    [r.range(-6.0, 6.0), r.range(-6.0, 6.0), b]
                })
                .collect();
            (v, r.chance(0.7))
        }
        _ => {
            // grid walk
            let n = if r.big { r.int(20, 150) } else { r.int(1, 14) } as usize;
            let parc = r.pick(&[0.0, 0.3, 0.8]);
            let mut q = (r.int(-3, 3), r.int(-3, 3));
            let mut v = vec![];
            for _ in 0..n {
                let b = if r.chance(parc) { r.sign() * r.pick(&[1.0, 1.0, Q, 0.5, 0.25]) } else { 0.0 };
                v.push([q.0 as f64, q.1 as f64, b]);
                q = (q.0 + r.int(-2, 2), q.1 + r.int(-2, 2));
            }
            (v, r.chance(0.7))
        }
    };
    if r.chance(0.25) {
        v = subdivide(r, &v, closed_, 0.4);
    }
    if r.chance(0.25) {
        // repeated vertexes; the copy in front may carry any bulge
        let mut w: Vec<V> = vec![];
        for q in v.iter() {
            if r.chance(0.3) {
                for _ in 0..r.int(1, 2) {
                    let b = if r.chance(0.5) { q[2] } else { r.pick(&[0.0, 0.0, 1.0, -0.5]) };
                    w.push([q[0], q[1], b]);
                }
            }
            w.push(*q);
        }
        v = w;
    }
    if v.len() > 1 && r.chance(0.1) {
        let f = v[0];
        let l = v.len() - 1;
        if r.chance(0.5) {
            v[l][0] = f[0];
            v[l][1] = f[1];
        } else {
            v.push(f);
        }
    }
    if r.chance(0.4) {
        let k = r.logrange(0.05, 500.0);
        let (rot, tx, ty) = (if r.chance(0.5) { 0.0 } else { r.range(0.0, TAU) }, r.range(-50.0, 50.0), r.range(-50.0, 50.0));
        v = transform(&v, k, rot, tx, ty);
    }
    if far(r, 0.04) {
        // far from the origin, as in survey coordinates
        let m = r.logrange(1e3, 3e5);
        v = transform(&v, 1.0, 0.0, (r.sign() * m * r.range(0.3, 1.0)).round(), (r.sign() * m * r.range(0.3, 1.0)).round());
    }
    Path::new(v, closed_)
}
