//! Monitors for edits, simplification, conversion, sub-path views and the container behaviour.
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;
use cavc_monitor::ensure;
use cavc_monitor::gen_::*;
use cavc_monitor::geom::*;
use cavc_monitor::lib_api::*;
use cavc_monitor::rep::*;
use cavc_monitor::rng::Rng;
use std::f64::consts::{PI, TAU};

/// point at arc length s, exact at the vertexes
struct Trace {
    segs: Vec<Seg>,
    start: Vec<f64>,
    total: f64,
    v0: P,
}
impl Trace {
    fn of(pa: &Path) -> Trace {
        let mut start = vec![];
        let mut t = 0.0;
        for s in &pa.segs {
            start.push(t);
            t += s.len();
        }
        Trace { segs: pa.segs.clone(), start, total: t, v0: if pa.v.is_empty() { p(0.0, 0.0) } else { pa.pos(0) } }
    }
    fn at(&self, s: f64) -> P {
        if self.segs.is_empty() {
            return self.v0;
        }
        let mut i = match self.start.binary_search_by(|x| x.partial_cmp(&s).unwrap()) {
            Ok(i) => i,
            Err(i) => i.saturating_sub(1),
        };
        i = i.min(self.segs.len() - 1);
        let l = self.segs[i].len();
        let t = if l > 0.0 { ((s - self.start[i]) / l).clamp(0.0, 1.0) } else { 0.0 };
        self.segs[i].at(t)
    }
}
/// largest distance between two traversals, `off` = arc length on a where b starts (closed only)
fn trace_diff(a: &Path, b: &Path, off: f64, n: usize) -> f64 {
    let (ta, tb) = (Trace::of(a), Trace::of(b));
    if ta.total == 0.0 || tb.total == 0.0 {
        return if ta.total == tb.total && (a.v.is_empty() == b.v.is_empty()) { ta.v0.dist(tb.v0) } else { ta.total.max(tb.total) };
    }
    let mut worst = (ta.total - tb.total).abs();
    let mut probe = |f: f64| {
        let mut sa = f * ta.total + off;
        if sa > ta.total {
            sa -= ta.total;
        }
        let d = ta.at(sa).dist(tb.at(f * tb.total));
        if d > worst {
            worst = d;
        }
    };
    for k in 0..=n {
        probe(k as f64 / n as f64);
    }
    for s in &tb.start {
        probe(s / tb.total);
    }
    for s in &ta.start {
        let mut f = (s - off) / ta.total;
        if f < 0.0 {
            f += 1.0;
        }
        probe(f);
    }
    worst
}
fn rmax(pa: &Path) -> f64 {
    pa.segs.iter().map(|s| if let Seg::A { r, .. } = s { *r } else { 0.0 }).fold(0.0, f64::max)
}
fn min_seg(pa: &Path) -> f64 {
    pa.segs.iter().map(|s| s.a().dist(s.b())).filter(|&d| d > 0.0).fold(f64::MAX, f64::min)
}
fn near_repeats(pa: &Path) -> bool {
    pa.segs.iter().any(|s| {
        let d = s.a().dist(s.b());
        d > 0.0 && d < 1e-6
    })
}
fn bits(v: &[V]) -> Vec<[u64; 3]> {
    // signed zeros compare equal
    v.iter().map(|q| q.map(|x| (x + 0.0).to_bits())).collect()
}

// ---------------------------------------------------------------- C17

fn c17(c: &mut Case) -> R {
    let pa = wild(&mut c.rng);
    c.input(ptext(&pa));
    let base = to_pl(&pa.v, pa.closed);
    let m = pa.max_abs();
    if pa.v.len() >= 2 {
        c.nontrivial();
    }
    // expected list of vertexes by the meaning of each operation
    let mut l = base.clone();
    let mut want = pa.v.clone();
    let steps = c.rng.int(1, 5);
    let mut curve = pa.clone();
    for _ in 0..steps {
        match c.rng.below(3) {
            0 => {
                let k = c.rng.sign() * if c.rng.chance(0.2) { c.rng.pick(&[1.0, 0.5, 2.0, 100.0]) } else { c.rng.logrange(1e-2, 1e2) };
                c.input(format!("scale {k:?}"));
                l.scale_mut(k);
                let pre = curve.clone();
                curve = path_of(&l);
                want = want.iter().map(|q| [q[0] * k, q[1] * k, q[2]]).collect();
                // every point of the curve is mapped (negative factors turn it by half a turn)
                for (s, t) in pre.segs.iter().zip(&curve.segs) {
                    for f in [0.0, 0.3, 0.5, 0.8, 1.0] {
                        let (a, b) = (s.at(f) * k, t.at(f));
                        let tol = 1e-12 * (1.0 + k.abs()) * (m + s.len() + rmax(&pre) + pre.max_abs());
                        ensure!(a.dist(b) <= tol, "scale", "scaled by {k:?}: point {a:?} became {b:?}");
                    }
                }
                c.ev("scales", 1);
            }
            1 => {
                let (dx, dy) = (c.rng.range(-100.0, 100.0), if c.rng.chance(0.2) { 0.0 } else { c.rng.range(-100.0, 100.0) });
                c.input(format!("translate {dx:?} {dy:?}"));
                l.translate_mut(dx, dy);
                want = want.iter().map(|q| [q[0] + dx, q[1] + dy, q[2]]).collect();
                curve = path_of(&l);
                c.ev("translations", 1);
            }
            _ => {
                c.input("invert".into());
                let mut twice = l.clone();
                twice.invert_direction_mut();
                let rev = path_of(&twice);
                ensure!(rev.closed == pa.closed && rev.v.len() == pa.v.len(), "reverse", "closed flag or vertex count changed");
                // the reversed polyline runs through the same segments backwards
                let n = curve.segs.len();
                if pa.v.len() >= 2 {
                    for i in 0..n {
                        let s = &curve.segs[i];
                        // closed: reversed starts with the same vertex set, segments match up to rotation
                        let j = if pa.closed { (2 * n - 2 - i) % n } else { n - 1 - i };
                        let t = &rev.segs[j];
                        for f in [0.0, 0.25, 0.5, 0.9, 1.0] {
                            let (a, b) = (s.at(f), t.at(1.0 - f));
                            let tol = 1e-9 * (1.0 + curve.max_abs() + s.len()) + if let Seg::A { r, .. } = s { 1e-12 * r } else { 0.0 };
                            ensure!(a.dist(b) <= tol, "reverse", "segment {i}: point {a:?} of the polyline, {b:?} of the reversed one");
                        }
                    }
                }
                twice.invert_direction_mut();
                let back = verts(&twice);
                let orig = verts(&l);
                for (i, (a, b)) in orig.iter().zip(&back).enumerate() {
                    // the bulge of the last vertex of an open polyline denotes nothing
                    let last_open = !pa.closed && i + 1 == orig.len();
                    ensure!(a[0] == b[0] && a[1] == b[1] && (last_open || a[2] == b[2] || a[2].abs() + b[2].abs() == 0.0), "reverse-twice", "vertex {i} is {b:?} after reversing twice, was {a:?}");
                }
                if c.rng.chance(0.5) {
                    let before = l.area();
                    let len = l.path_length();
                    l.invert_direction_mut();
                    let tol = 1e-10 * (1.0 + curve.max_abs() + rmax(&curve)).powi(2) * (1.0 + pa.v.len() as f64);
                    ensure!((l.area() + before).abs() <= tol, "reverse-area", "area {before} became {}", l.area());
                    ensure!((l.path_length() - len).abs() <= tol, "reverse-length", "length {len} became {}", l.path_length());
                    curve = path_of(&l);
                    want = verts(&l);
                }
                c.ev("reversals", 1);
            }
        }
        let got = verts(&l);
        ensure!(l.is_closed() == pa.closed, "closed-flag", "closed flag changed");
        ensure!(got.len() == want.len(), "count", "{} vertexes became {}", want.len(), got.len());
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            let tol = 1e-14 * (1.0 + w[0].abs() + w[1].abs() + m);
            let last_open = !pa.closed && i + 1 == got.len();
            ensure!((g[0] - w[0]).abs() <= tol && (g[1] - w[1]).abs() <= tol && (last_open || g[2] == w[2]), "vertex", "vertex {i} is {g:?}, must be {w:?}");
        }
        want = got;
    }
    c.ev("transform_histories", 1);
    Ok(())
}

// ---------------------------------------------------------------- C18

#[derive(PartialEq, Clone, Copy, Debug)]
enum Tri {
    Yes,
    No,
    Unsure,
}
/// can vertex b between a and c be removed without changing the curve?
fn redundant(a: V, b: V, d: V, eps: f64) -> Tri {
    let (pa, pb, pd) = (p(a[0], a[1]), p(b[0], b[1]), p(d[0], d[1]));
    if pa.dist(pb) <= 0.5 * eps || pb.dist(pd) <= 0.5 * eps {
        return Tri::Yes;
    }
    if pa.dist(pb) <= 4.0 * eps || pb.dist(pd) <= 4.0 * eps {
        return Tri::Unsure;
    }
    let line = |v: V| v[2].abs() < BULGE_ZERO;
    match (line(a), line(b)) {
        (true, true) => {
            let cr = (pb - pa).cross(pd - pa).abs();
            let dot = (pd - pb).dot(pb - pa);
            if cr < eps * 0.01 && dot > 0.0 {
                Tri::Yes
            } else if cr > eps * 100.0 || dot < -100.0 * eps {
                Tri::No
            } else {
                Tri::Unsure
            }
        }
        (false, false) if a[2] * b[2] > 0.0 => {
            let (s, t) = (Seg::new(a, b), Seg::new(b, d));
            let (Seg::A { c: c1, r: r1, sw: w1, .. }, Seg::A { c: c2, r: r2, sw: w2, .. }) = (s, t) else { return Tri::Unsure };
            let far = c1.dist(c2).max((r1 - r2).abs());
            let sweep = (w1 + w2).abs();
            let ulp = 1e-11 * (r1 + r2);
            let slack = 3.0 * eps / r1.min(r2);
            if far + ulp < eps * 0.01 && sweep < PI - slack - 1e-9 {
                Tri::Yes
            } else if far - ulp > eps * 10.0 || sweep > PI + slack {
                Tri::No
            } else {
                Tri::Unsure
            }
        }
        _ => {
            // bulges around the flatness limit count as either
            if (a[2].abs() < 1e-7 && a[2] != 0.0) || (b[2].abs() < 1e-7 && b[2] != 0.0) { Tri::Unsure } else { Tri::No }
        }
    }
}
fn any_redundant(v: &[V], closed_: bool, eps: f64, repeats_only: bool) -> (Tri, String) {
    let n = v.len();
    let mut res = Tri::No;
    let dist = |a: V, b: V| p(a[0], a[1]).dist(p(b[0], b[1]));
    let m = if closed_ { n } else { n.saturating_sub(1) };
    if n >= 2 {
        for i in 0..m {
            let d = dist(v[i], v[(i + 1) % n]);
            if d <= 0.5 * eps {
                return (Tri::Yes, format!("vertexes {i} and {} at one position", (i + 1) % n));
            }
            if d <= 4.0 * eps {
                res = Tri::Unsure;
            }
        }
    }
    if !repeats_only && n >= 3 {
        for i in 0..n {
            if !closed_ && (i == 0 || i == n - 1) {
                continue;
            }
            match redundant(v[(i + n - 1) % n], v[i], v[(i + 1) % n], eps) {
                Tri::Yes => return (Tri::Yes, format!("vertex {i} {:?}", v[i])),
                Tri::Unsure => res = Tri::Unsure,
                Tri::No => {}
            }
        }
    }
    (res, String::new())
}
/// the same curve with the same direction; closed curves may start at another vertex
fn same_curve(a: &Path, b: &Path, tol: f64) -> Result<(), String> {
    if a.closed != b.closed {
        return Err("closed flag changed".into());
    }
    if a.v.is_empty() != b.v.is_empty() {
        return Err(format!("{} vertexes became {}", a.v.len(), b.v.len()));
    }
    if a.v.is_empty() {
        return Ok(());
    }
    let d = trace_diff(a, b, 0.0, 24);
    if d <= tol {
        return Ok(());
    }
    let mut best = d;
    if a.closed {
        let ta = Trace::of(a);
        for i in 0..a.v.len().min(ta.start.len()) {
            if a.pos(i).dist(b.pos(0)) <= tol {
                best = best.min(trace_diff(a, b, ta.start[i], 24));
                if best <= tol {
                    return Ok(());
                }
            }
        }
    }
    Err(format!("the curve moved by {best:e} (tolerance {tol:e})"))
}
/// repeated positions exact or within the tolerance
fn with_repeats(r: &mut Rng, v: &[V], eps: f64, pr: f64, exact: bool) -> Vec<V> {
    let mut w = vec![];
    for q in v {
        w.push(*q);
        if r.chance(pr) {
            for _ in 0..r.int(1, 3) {
                let j = if exact || r.chance(0.5) { 0.0 } else { eps * 0.3 };
                let l: &mut V = w.last_mut().unwrap();
                let real = l[2];
                // the bulge of the last copy counts
                l[2] = r.pick(&[real, 0.0, 1.0, -0.5]);
                let (x, y) = (q[0] + j * r.range(-1.0, 1.0), q[1] + j * r.range(-1.0, 1.0));
                w.push([x, y, real]);
            }
        }
    }
    w
}
fn c18_gen(c: &mut Case) -> Option<(Path, f64, bool)> {
    let r = &mut c.rng;
    let eps = r.pick(&[1e-5, 1e-5, 1e-5, 1e-6, 1e-7, 1e-4]);
    let mut pa = wild(r);
    if r.chance(0.35) {
        // many redundant vertexes
        pa = Path::new(subdivide(r, &pa.v, pa.closed, 0.8), pa.closed);
    }
    if r.chance(0.5) && pa.v.len() > 1 && pa.closed {
        let k = r.below(pa.v.len());
        pa = Path::new(rotate(&pa.v, k), true);
    }
    if min_seg(&pa) < 0.04 || rmax(&pa) > 1e5 {
        return None;
    }
    let mut exact = true;
    if r.chance(0.5) {
        let pr = r.pick(&[0.15, 0.4, 0.9]);
        exact = r.chance(0.6);
        pa = Path::new(with_repeats(r, &pa.v, eps, pr, exact), pa.closed);
    }
    if r.chance(0.1) && pa.closed {
        pa = Path::new(pa.v.clone(), false);
    }
    Some((pa, eps, exact))
}
fn c18(c: &mut Case) -> R {
    let Some((pa, eps, exact)) = c18_gen(c) else {
        c.skip();
        return Ok(());
    };
    c.input(format!("{} eps {eps:?}", ptext(&pa)));
    let l = to_pl(&pa.v, pa.closed);
    let n = pa.v.len();
    if n >= 3 {
        c.nontrivial();
    }
    let tol = (n as f64 + 1.0) * eps * (30.0 + 3.0 * rmax(&pa).min(100.0)) + 1e-9 * (pa.max_abs() + rmax(&pa));
    let judge = |c: &mut Case, res: &Option<PL>, only_repeats: bool, name: &str| -> R {
        let (before, why) = any_redundant(&pa.v, pa.closed, eps, only_repeats);
        match res {
            None => {
                ensure!(before != Tri::Yes || n < 2, "kept-redundant", "{name}: reported no change but has redundant {why}");
                c.ev("no_change", 1);
            }
            Some(q) => {
                let b = path_of(q);
                ensure!(b.v.len() < n, "no-removal", "{name}: {} vertexes became {} but a change was reported", n, b.v.len());
                ensure!(before != Tri::No, "removed-needed", "{name}: removed a vertex though none is redundant: {}", ptext(&b));
                if let Err(e) = same_curve(&pa, &b, tol) {
                    return fail("curve", format!("{name}: {e}: {}", ptext(&b)));
                }
                // copies that differ within the tolerance change what is collinear, step by step
                let (after, why) = any_redundant(&b.v, b.closed, eps, only_repeats || !exact);
                ensure!(after != Tri::Yes || b.v.len() < 2, "redundant-left", "{name}: redundant {why} left in {}", ptext(&b));
                let again = if only_repeats { q.remove_repeat_pos(eps) } else { q.remove_redundant(eps) };
                if after == Tri::No && (exact || only_repeats) {
                    ensure!(again.is_none(), "idempotent", "{name}: second application changed {} into {}", ptext(&b), ptext(&path_of(&again.unwrap())));
                }
                c.ev("simplified", 1);
                c.ev("vertexes_removed", (n - b.v.len()) as u64);
            }
        }
        Ok(())
    };
    let res = l.remove_repeat_pos(eps);
    judge(c, &res, true, "remove_repeat_pos")?;
    let res = l.remove_redundant(eps);
    judge(c, &res, false, "remove_redundant")?;
    // copying constructors that drop repeats
    let q = PL::create_from_remove_repeat(&l, eps);
    let want = l.remove_repeat_pos(eps).unwrap_or(l.clone());
    let (gv, wv) = (verts(&q), verts(&want));
    ensure!(gv.len() == wv.len() && q.is_closed() == pa.closed && gv.iter().zip(&wv).all(|(a, b)| (0..3).all(|k| (a[k] - b[k]).abs() <= 2.0 * eps)), "create-from", "create_from_remove_repeat gave {}, remove_repeat_pos {}", text(&gv, pa.closed), text(&wv, pa.closed));
    c.ev("copies_without_repeats", 1);
    // appending to something
    if n > 0 {
        let k = c.rng.below(n);
        let mut q = to_pl(&pa.v[..k], false);
        let mut rest = to_pl(&pa.v[k..], c.rng.chance(0.5));
        let first = PL::create_from_remove_repeat(&q, eps);
        q = first.clone();
        q.extend_remove_repeat(&rest, eps);
        rest.set_is_closed(false);
        let whole = PL::create_from_remove_repeat(&to_pl(&pa.v, false), eps);
        ensure!(bits(&verts(&q)) == bits(&verts(&whole)), "extend", "appending in two parts gave {}, in one {}", text(&verts(&q), false), text(&verts(&whole), false));
        c.ev("appended", 1);
    }
    Ok(())
}
/// segments much shorter than one unit (but hundreds of tolerances): only what really is redundant goes
fn c18_short(c: &mut Case) -> R {
    let r = &mut c.rng;
    let eps = r.pick(&[1e-5, 1e-5, 1e-6, 1e-4]);
    let h = eps * r.logrange(200.0, 20000.0);
    let n = r.int(3, 40) as usize;
    let closed_ = r.chance(0.5);
    let curl = r.chance(0.5);
    let step = r.range(0.12, 0.8) * r.sign();
    let mut dir = r.range(0.0, 6.28);
    let mut q = p(r.range(-3.0, 3.0), r.range(-3.0, 3.0));
    let mut base: Vec<V> = vec![];
    let mut l = 0.0;
    for _ in 0..n {
        base.push([q.x, q.y, 0.0]);
        let m = h * r.range(0.7, 1.5);
        let turn: f64 = match r.below(if curl { 12 } else { 4 }) {
            0 => r.sign() * r.range(0.12, 2.8),
            // back
            1 => r.sign() * r.range(3.0, 3.14),
            _ => step,
        };
        // what counts as straight is an area for the library
        dir += if l * m * turn.sin().abs() > 20.0 * eps { turn } else { r.sign() * r.range(1.8, 3.14) };
        q = q + p(dir.cos(), dir.sin()) * m;
        l = m;
    }
    if closed_ {
        // the closing corners are clear too
        let d = |a: V, b: V| p(b[0] - a[0], b[1] - a[1]);
        let (l, m) = (base[n - 1], base[n - 2]);
        let (e, f, g) = (d(m, l), d(l, base[0]), d(base[0], base[1]));
        let clear = |a: P, b: P| a.cross(b).abs() > 20.0 * eps || a.dot(b) < -0.1 * a.len() * b.len();
        if f.len() < 50.0 * eps || !clear(e, f) || !clear(f, g) {
            c.skip();
            return Ok(());
        }
    }
    let mut v: Vec<V> = vec![];
    let mut more = 0;
    for i in 0..n {
        v.push(base[i]);
        if (i + 1 < n || closed_) && r.chance(0.15) {
            let s = Seg::new(base[i], base[(i + 1) % n]);
            let x = s.at(r.range(0.3, 0.7));
            v.push([x.x, x.y, 0.0]);
            more += 1;
        }
    }
    let pa = Path::new(v, closed_);
    c.input(format!("{} eps {eps:?}", ptext(&pa)));
    c.nontrivial();
    let l = to_pl(&pa.v, closed_);
    match l.remove_redundant(eps) {
        None => ensure!(more == 0, "kept-redundant", "reported no change though {more} vertexes lie on the line between their neighbours"),
        Some(q) => {
            let b = path_of(&q);
            ensure!(more > 0, "removed-needed", "removed a vertex though none is redundant: {}", ptext(&b));
            ensure!(b.v.len() == n, "count", "{n} corners and {more} vertexes between became {}: {}", b.v.len(), ptext(&b));
            for k in &base {
                ensure!(b.v.iter().any(|x| p(x[0], x[1]).dist(p(k[0], k[1])) <= eps), "corner", "corner {k:?} is gone: {}", ptext(&b));
            }
            c.ev("short_simplified", 1);
        }
    }
    c.ev("short_cases", 1);
    Ok(())
}
fn c18_rotate(c: &mut Case) -> R {
    let pa = wild(&mut c.rng);
    if min_seg(&pa) < 0.01 || rmax(&pa) > 1e5 || near_repeats(&pa) {
        c.skip();
        return Ok(());
    }
    let eps = c.rng.pick(&[1e-5, 1e-5, 1e-7, 1e-4]);
    let n = pa.v.len();
    let l = to_pl(&pa.v, pa.closed);
    c.input(ptext(&pa));
    let i = c.rng.below(n + 2);
    if !pa.closed || n < 2 || i >= n {
        c.input(format!("start {i}"));
        let q = p(c.rng.range(-5.0, 5.0), c.rng.range(-5.0, 5.0));
        ensure!(l.rotate_start(i, v2(q), eps).is_none(), "refuse", "rotate_start({i}) of an open, too short or out of range polyline gave a result");
        c.ev("refused", 1);
        return Ok(());
    }
    c.nontrivial();
    let s = pa.segs[i];
    let t = c.rng.pick(&[0.0, 1.0, 0.5, -1.0, -1.0]);
    let t = if t < 0.0 { c.rng.range(0.05, 0.95) } else { t };
    // splitting at a position within the tolerance of an end is the end
    let t = if s.len() * t.min(1.0 - t) < 3.0 * eps { 0.0 } else { t };
    let q = s.at(t);
    c.input(format!("start {i} at ({:?},{:?}) eps {eps:?}", q.x, q.y));
    let Some(res) = l.rotate_start(i, v2(q), eps) else {
        return fail("missing", "rotate_start gave nothing".into());
    };
    let b = path_of(&res);
    ensure!(b.closed, "closed", "result is open");
    ensure!(b.pos(0).dist(q) <= eps + 1e-12 * pa.max_abs(), "start", "starts at {:?} instead of {q:?}", b.pos(0));
    let more = if t > 0.0 && t < 1.0 { n + 1 } else { n };
    ensure!(b.v.len() == more, "count", "{n} vertexes became {}, expected {more}", b.v.len());
    let off = Trace::of(&pa).start[i] + t * s.len();
    let tol = 4.0 * eps + 1e-9 * (1.0 + pa.max_abs() + rmax(&pa));
    let d = trace_diff(&pa, &b, off, 32);
    // repeated positions at the start make the number of leading copies free
    ensure!(d <= tol || same_curve(&pa, &b, tol).is_ok(), "curve", "curve moved by {d:e}: {}", ptext(&b));
    c.ev("restarted", 1);
    if t > 0.0 && t < 1.0 {
        c.ev("restarted_inside_segment", 1);
    }
    Ok(())
}
fn c18_all_equal(c: &mut Case) -> R {
    // only one position, or a run of one position followed by few others: the shortest polylines
    let r = &mut c.rng;
    let eps = r.pick(&[1e-5, 1e-7]);
    let k = r.int(1, 5) as usize;
    let q = [r.int(-3, 3) as f64, r.int(-3, 3) as f64];
    let mut v: Vec<V> = (0..k).map(|_| [q[0], q[1], r.pick(&[0.0, 1.0, -0.5])]).collect();
    for _ in 0..r.below(3) {
        let w = [r.int(-3, 3) as f64, r.int(-3, 3) as f64, r.pick(&[0.0, 1.0, -0.5])];
        for _ in 0..r.int(1, 2) {
            v.push(w);
        }
    }
    if r.chance(0.3) {
        v.push([q[0], q[1], 0.0]);
    }
    let scale = r.pick(&[1.0, 1.0, 1e-3, 0.1, 100.0]);
    let v: Vec<V> = v.iter().map(|q| [q[0] * scale, q[1] * scale, q[2]]).collect();
    let pa = Path::new(v, r.chance(0.5));
    c.input(format!("{} eps {eps:?}", ptext(&pa)));
    c.nontrivial();
    let l = to_pl(&pa.v, pa.closed);
    let n = pa.v.len();
    // small sizes: collinearity is tested on the area, the resolution is the square root of eps
    let tol = (n as f64 + 1.0) * eps * 30.0 + if scale < 0.05 { 2.0 * n as f64 * eps.sqrt() } else { 0.0 };
    for (name, res, rep) in [("remove_repeat_pos", l.remove_repeat_pos(eps), true), ("remove_redundant", l.remove_redundant(eps), false)] {
        let (before, why) = any_redundant(&pa.v, pa.closed, eps, rep);
        match &res {
            None => ensure!(before != Tri::Yes || n < 2, "kept-redundant", "{name}: reported no change but has redundant {why}"),
            Some(q) => {
                let b = path_of(q);
                ensure!(b.v.len() < n, "no-removal", "{name}: {n} vertexes became {}", b.v.len());
                if let Err(e) = same_curve(&pa, &b, tol) {
                    return fail("curve", format!("{name}: {e}: {}", ptext(&b)));
                }
                let (after, why) = any_redundant(&b.v, b.closed, eps, rep);
                ensure!(after != Tri::Yes || b.v.len() < 2, "redundant-left", "{name}: redundant {why} left in {}", ptext(&b));
            }
        }
    }
    let q = PL::create_from_remove_repeat(&l, eps);
    if let Err(e) = same_curve(&pa, &path_of(&q), tol) {
        return fail("curve", format!("create_from_remove_repeat: {e}: {}", text(&verts(&q), pa.closed)));
    }
    c.ev("short_polylines", 1);
    Ok(())
}

// ---------------------------------------------------------------- C19

fn c19(c: &mut Case) -> R {
    let pa = wild(&mut c.rng);
    if near_repeats(&pa) || rmax(&pa) > 1e6 {
        c.skip();
        return Ok(());
    }
    let l = to_pl(&pa.v, pa.closed);
    let rm = rmax(&pa);
    let scale = if rm > 0.0 { rm.min(pa.diag().max(0.1)) } else { 1.0 };
    let mut err = scale * c.rng.logrange(1e-5, 3.0);
    if c.rng.chance(0.15) {
        err = -err;
    }
    c.input(format!("{} error {err:?}", ptext(&pa)));
    let e = err.abs();
    let Some(res) = l.arcs_to_approx_lines(err) else {
        return fail("refused", "no result".into());
    };
    let b = path_of(&res);
    ensure!(b.closed == pa.closed, "closed", "closed flag changed");
    let m = pa.max_abs();
    let fz = 1e-9 * (1.0 + m) + 1e-13 * rm;
    // no arcs
    for (i, s) in b.segs.iter().enumerate() {
        ensure!(!s.is_arc(), "arc-left", "segment {i} of the result is an arc: {}", ptext(&b));
    }
    if pa.v.is_empty() || pa.segs.is_empty() {
        return Ok(());
    }
    if pa.segs.iter().any(|s| s.is_arc()) {
        c.nontrivial();
    }
    // walk: original vertexes appear in order, what lies between is on the arc, within the error
    let mut k = 0;
    let nb = b.v.len();
    let last_needed = |i: usize| if pa.closed { i % pa.v.len() } else { i };
    for (i, s) in pa.segs.iter().enumerate() {
        ensure!(k < nb, "vertex-missing", "result ends before vertex {i}");
        ensure!(b.pos(k).dist(s.a()) <= fz, "vertex", "result vertex {k} at {:?}, vertex {i} at {:?} expected", b.pos(k), s.a());
        let last = i + 1 == pa.segs.len();
        let next_v = last_needed(i + 1);
        let mut pts = vec![b.pos(k)];
        let mut run = 0.0f64; // parameter reached
        k += 1;
        if let Seg::A { a, b: e2, .. } = *s {
            if a.dist(e2) == 0.0 {
                continue;
            }
            loop {
                if k >= nb {
                    ensure!(last && pa.closed, "vertex-missing", "result ends within segment {i}");
                    break;
                }
                let q = b.pos(k);
                let is_end = q.dist(pa.pos(next_v)) <= fz;
                let (t, d) = s.closest(q);
                if is_end {
                    break;
                }
                ensure!(d <= fz, "off-curve", "result vertex {k} at {q:?} is {d:e} away from segment {i}");
                ensure!(t > run - 1e-9, "order", "result vertex {k} goes backwards on segment {i}");
                run = t;
                pts.push(q);
                k += 1;
            }
            pts.push(pa.pos(next_v));
            // one direction: points of the arc to the lines; the other: points of the lines to the arc
            let arc = Path::new(vec![pa.v[i], [pa.pos(next_v).x, pa.pos(next_v).y, 0.0]], false);
            let pieces = Path::new(pts.iter().map(|q| [q.x, q.y, 0.0]).collect(), false);
            let lim = e * (1.0 + 1e-6) + fz + 1.1e-8;
            for j in 0..=40 {
                let t = j as f64 / 40.0;
                let d = pieces.dist(s.at(t));
                ensure!(d <= lim, "error", "segment {i}: arc point is {d:e} away from the lines, {e:e} requested");
            }
            for piece in &pieces.segs {
                let d = arc.dist(piece.at(0.5));
                ensure!(d <= lim, "error", "segment {i}: line midpoint is {d:e} away from the arc, {e:e} requested");
            }
            // not grossly more lines than needed
            if let Seg::A { r, sw, .. } = *s {
                let half = (1.0 - (e / r).min(1.0)).acos();
                let need = (sw.abs() / (2.0 * half)).ceil().max(1.0);
                ensure!(pieces.segs.len() as f64 <= 2.0 * need + 2.0, "too-many", "segment {i}: {} lines where {need} suffice", pieces.segs.len());
            }
            c.ev("arcs_converted", 1);
            c.ev("arc_points", pts.len() as u64);
        } else {
            c.ev("lines_kept", 1);
        }
    }
    if !pa.closed {
        ensure!(k + 1 == nb && b.pos(k).dist(pa.pos(pa.v.len() - 1)) <= fz, "end", "the last vertex is missing or followed by others");
    } else {
        ensure!(k == nb, "extra", "{} extra vertexes at the end", nb as i64 - k as i64);
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

/// explicit stretch of a path from (i, t) to (j, u) going forward; wraps around closed paths
fn stretch(pa: &Path, i: usize, t: f64, j: usize, u: f64) -> Path {
    let n = pa.segs.len();
    let part = |k: usize, t0: f64, t1: f64| -> (V, P) {
        let s = pa.segs[k];
        let (a, b) = (s.at(t0), s.at(t1));
        let bulge = match s {
            Seg::L { .. } => 0.0,
            Seg::A { sw, .. } => (sw * (t1 - t0) / 4.0).tan(),
        };
        ([a.x, a.y, bulge], b)
    };
    let mut v: Vec<V> = vec![];
    let mut k = i;
    let mut t0 = t;
    let wrap_first = j < i || (j == i && u <= t);
    let mut first = true;
    loop {
        let last = k == j && (!first || !wrap_first);
        let t1 = if last { u } else { 1.0 };
        if t1 > t0 {
            let (a, b) = part(k, t0, t1);
            v.push(a);
            if last {
                v.push([b.x, b.y, 0.0]);
            }
        } else if last {
            // ends on the vertex that was reached
            let b = pa.segs[k].at(u);
            v.push([b.x, b.y, 0.0]);
        }
        if last {
            break;
        }
        first = false;
        t0 = 0.0;
        k = (k + 1) % n;
    }
    Path::new(v, false)
}
fn rev_path(pa: &Path) -> Path {
    Path::new(reverse(&pa.v, false), false)
}
/// every way of reading the view gives the same polyline
fn view_access<S: PlineSource<Num = f64>>(view: &S, c: &mut Case) -> Result<PL, Fail> {
    let n = view.vertex_count();
    ensure!(!view.is_closed(), "view-closed", "view claims to be closed");
    let mut copy = Polyline::new();
    for i in 0..n {
        let Some(q) = view.get(i) else {
            return fail("view-get", format!("get({i}) of {n} gives nothing"));
        };
        ensure!(q == view.at(i), "view-at", "get({i}) {q:?} and at({i}) {:?} differ", view.at(i));
        copy.add_vertex(q);
    }
    ensure!(view.get(n).is_none() && view.get(n + 1).is_none(), "view-range", "get beyond the end gives a vertex");
    ensure!(view.last() == copy.last(), "view-last", "last {:?}", view.last());
    let it: Vec<_> = view.iter_vertexes().collect();
    ensure!(it == copy.vertex_data, "view-iter", "iteration gives {it:?}");
    let back: Vec<_> = view.iter_vertexes().rev().collect();
    ensure!(back.iter().rev().eq(copy.vertex_data.iter()), "view-iter-back", "backward iteration gives {back:?}");
    let segs: Vec<_> = view.iter_segments().collect();
    ensure!(segs.len() == n - 1 && segs.len() == view.segment_count(), "view-segments", "{} segments", segs.len());
    for (k, (a, b)) in segs.iter().enumerate() {
        ensure!(*a == copy[k] && *b == copy[k + 1], "view-segments", "segment {k} is {a:?} {b:?}");
    }
    // operations on the view equal operations on the copy, bit by bit
    ensure!(view.path_length().to_bits() == copy.path_length().to_bits(), "view-length", "length {} not {}", view.path_length(), copy.path_length());
    ensure!(view.extents() == copy.extents(), "view-extents", "extents differ");
    ensure!(view.area() == 0.0 && view.orientation() == PlineOrientation::Open, "view-area", "area {}", view.area());
    let q = v2(p(c.rng.range(-6.0, 6.0), c.rng.range(-6.0, 6.0)));
    let (x, y) = (view.closest_point(q, 1e-9).unwrap(), copy.closest_point(q, 1e-9).unwrap());
    ensure!(x.seg_start_index == y.seg_start_index && x.seg_point == y.seg_point && x.distance == y.distance, "view-closest", "closest point differs");
    let e = PL::create_from(view);
    ensure!(e.vertex_data == copy.vertex_data && !e.is_closed(), "view-copy", "create_from gives {}", text(&verts(&e), false));
    let mut ext = Polyline::new();
    ext.extend(view);
    ensure!(ext.vertex_data == copy.vertex_data, "view-extend", "extend gives {}", text(&verts(&ext), false));
    ensure!(view.fuzzy_eq(&copy) && copy.fuzzy_eq(view), "view-eq", "view not equal to its copy");
    Ok(copy)
}
fn c20(c: &mut Case) -> R {
    // sources: no repeated positions, or segments below the resolution of the library's own checks
    let mut pa = wild(&mut c.rng);
    let mut keep: Vec<V> = vec![];
    for q in &pa.v {
        if let Some(l) = keep.last() {
            if p(l[0], l[1]).dist(p(q[0], q[1])) < 1e-9 {
                continue;
            }
        }
        keep.push(*q);
    }
    if pa.closed && keep.len() > 1 && p(keep[0][0], keep[0][1]).dist(p(keep[keep.len() - 1][0], keep[keep.len() - 1][1])) < 1e-9 {
        keep.pop();
    }
    pa = Path::new(keep, pa.closed);
    if pa.v.len() < 2 || min_seg(&pa) < 0.02 || rmax(&pa) > 1e4 {
        c.skip();
        return Ok(());
    }
    c.nontrivial();
    let l = to_pl(&pa.v, pa.closed);
    let n = pa.segs.len();
    c.input(ptext(&pa));
    let eps = c.rng.pick(&[1e-5, 1e-5, 1e-6, 1e-8]);
    let tol = 1e-9 * (1.0 + pa.max_abs() + rmax(&pa)) + 4.0 * eps;
    let pick_t = |r: &mut Rng| match r.below(4) {
        0 => 0.0,
        1 => 1.0,
        _ => r.range(0.06, 0.94),
    };
    let kind = c.rng.below(4);
    let (data, want): (Option<PlineViewData<f64>>, Option<Path>) = match kind {
        0 => {
            // the whole
            c.input("entire".into());
            let want = stretch(&pa, 0, 0.0, n - 1, 1.0);
            (Some(PlineViewData::from_entire_pline(&l)), Some(want))
        }
        1 => {
            let i = c.rng.below(n);
            let t = pick_t(&mut c.rng);
            let q = pa.segs[i].at(t);
            c.input(format!("new start ({:?},{:?}) on {i} eps {eps:?}", q.x, q.y));
            // on an open polyline the last vertex index may be named too
            let ii = if !pa.closed && i == n - 1 && t == 1.0 && c.rng.chance(0.3) { n } else { i };
            let d = PlineViewData::from_new_start(&l, v2(q), ii, eps);
            let want = if pa.closed {
                let mut w = stretch(&pa, i, t, i, t);
                if t == 1.0 {
                    w = stretch(&pa, (i + 1) % n, 0.0, i, 1.0);
                } else if t == 0.0 {
                    w = stretch(&pa, i, 0.0, (i + n - 1) % n, 1.0);
                }
                Some(w)
            } else if i == n - 1 && t == 1.0 {
                None
            } else if t == 1.0 {
                Some(stretch(&pa, i + 1, 0.0, n - 1, 1.0))
            } else {
                Some(stretch(&pa, i, t, n - 1, 1.0))
            };
            (d, want)
        }
        _ => {
            let (mut i, mut t) = (c.rng.below(n), pick_t(&mut c.rng));
            let (mut j, mut u) = (if c.rng.chance(0.3) { i } else { c.rng.below(n) }, pick_t(&mut c.rng));
            let collapse = c.rng.chance(0.08);
            if collapse {
                j = i;
                if t == 1.0 {
                    t = 0.5;
                }
                u = t;
            }
            if !pa.closed && (i, t) > (j, u) {
                (i, t, j, u) = (j, u, i, t);
            }
            // two named positions that coincide otherwise: full turn or nothing, not decided here
            let pos = |i: usize, t: f64| if t == 1.0 && pa.closed { ((i + 1) % n, 0.0) } else if t == 1.0 { (i + 1, 0.0) } else { (i, t) };
            if !collapse && pos(i, t) == pos(j, u) && !(i == j && t == u && !pa.closed) {
                if !(!pa.closed && i < j) {
                    c.skip();
                    return Ok(());
                }
            }
            let collapsed = pos(i, t) == pos(j, u);
            let (a, b) = (pa.segs[i].at(t), pa.segs[j].at(u));
            let jj = if !pa.closed && j == n - 1 && u == 1.0 && c.rng.chance(0.5) { n } else { j };
            if !collapsed && a.dist(b) < 8.0 * eps {
                c.skip();
                return Ok(());
            }
            c.input(format!("slice ({:?},{:?}) on {i} to ({:?},{:?}) on {jj} eps {eps:?}", a.x, a.y, b.x, b.y));
            let d = PlineViewData::from_slice_points(&l, v2(a), i, v2(b), jj, eps);
            if collapsed {
                c.ev("collapsed", 1);
                (d, None)
            } else {
                let (si, st) = pos(i, t);
                let (mut ej, mut eu) = (j, u);
                if eu == 0.0 {
                    // the end of the stretch is the end of the segment before
                    ej = (ej + n - 1) % n;
                    eu = 1.0;
                }
                (d, Some(stretch(&pa, si, st, ej, eu)))
            }
        }
    };
    let Some(want) = want else {
        ensure!(data.is_none(), "not-collapsed", "a collapsed request gave a view: {data:?}");
        c.ev("no_view", 1);
        return Ok(());
    };
    let Some(mut data) = data else {
        return fail("missing", "no view for a stretch of positive length".into());
    };
    ensure!(data.validate_for_source(&l) == ViewDataValidation::IsValid, "validate", "{:?}", data.validate_for_source(&l));
    for inv in [false, true] {
        data.inverted_direction = inv;
        let view = data.view(&l);
        let copy = view_access(&view, c)?;
        let got = path_of(&copy);
        // nothing follows the last vertex: a stretch that is closed or extended later must not bulge
        ensure!(copy.last().unwrap().bulge == 0.0, "last-bulge", "last vertex of the view{} carries bulge {}", if inv { " inverted" } else { "" }, copy.last().unwrap().bulge);
        let w = if inv { rev_path(&want) } else { want.clone() };
        let d = trace_diff(&w, &got, 0.0, 24);
        ensure!(d <= tol, "curve", "view{} deviates by {d:e}: {} instead of {}", if inv { " inverted" } else { "" }, ptext(&got), ptext(&w));
        ensure!(got.v.len() <= w.v.len() + 1, "count", "{} vertexes for {}", got.v.len(), w.v.len());
        let back = data.view(&l).detach();
        ensure!(back.start_index == data.start_index && back.end_index_offset == data.end_index_offset && back.inverted_direction == inv, "detach", "detached data differs");
        c.ev(if inv { "inverted_views" } else { "views" }, 1);
        // a view over the view
        if got.v.len() >= 2 && got.segs.iter().all(|s| s.len() > 0.01) && c.rng.chance(0.3) {
            let k = c.rng.below(got.segs.len());
            let t = c.rng.range(0.1, 0.9);
            let q = got.segs[k].at(t);
            if let Some(d2) = PlineViewData::from_new_start(&view, v2(q), k, eps) {
                let w2 = stretch(&got, k, t, got.segs.len() - 1, 1.0);
                let v2_ = d2.view(&view);
                let c2 = path_of(&view_access(&v2_, c)?);
                let d = trace_diff(&w2, &c2, 0.0, 16);
                ensure!(d <= tol, "nested", "view over a view deviates by {d:e}: {} instead of {}", ptext(&c2), ptext(&w2));
                c.ev("nested_views", 1);
            } else {
                return fail("nested", "no view over the view".into());
            }
        }
    }
    if kind >= 2 {
        c.ev("slices", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C27

fn rv(r: &mut Rng) -> V {
    let b = r.pick(&[0.0, 1.0, -0.5, 0.25]);
    if r.chance(0.4) { [r.int(-2, 2) as f64, r.int(-2, 2) as f64, b] } else { [r.range(-9.0, 9.0), r.range(-9.0, 9.0), b] }
}
fn c27(c: &mut Case) -> R {
    let closed0 = c.rng.chance(0.5);
    let start: Vec<V> = (0..c.rng.below(6)).map(|_| rv(&mut c.rng)).collect();
    let mut closed_ = closed0;
    let mut model = start.clone();
    let mut l: PL = match c.rng.below(5) {
        0 => {
            model.clear();
            closed_ = false;
            if c.rng.chance(0.5) { Polyline::new() } else { Polyline::default() }
        }
        1 => {
            model.clear();
            closed_ = true;
            Polyline::new_closed()
        }
        2 => PL::from_iter(start.iter().map(|q| vv(*q)), closed0),
        3 => {
            model.clear();
            PL::with_capacity(c.rng.below(9), closed0)
        }
        _ => {
            model.clear();
            closed_ = false;
            PL::empty()
        }
    };
    let steps = if c.thorough { 60 } else { 24 };
    let mut log = vec![];
    for step in 0..steps {
        let n = model.len();
        let q = rv(&mut c.rng);
        let op = c.rng.below(17);
        log.push(op);
        match op {
            0 => {
                l.add_vertex(vv(q));
                model.push(q);
            }
            1 => {
                l.add(q[0], q[1], q[2]);
                model.push(q);
            }
            2 => {
                l.add_from_array(q);
                model.push(q);
            }
            3 if n > 0 => {
                let i = c.rng.below(n);
                l.set_vertex(i, vv(q));
                model[i] = q;
            }
            4 if n > 0 => {
                let i = c.rng.below(n);
                l.set(i, q[0], q[1], q[2]);
                model[i] = q;
            }
            5 => {
                let i = c.rng.below(n + 1);
                if c.rng.chance(0.5) {
                    l.insert_vertex(i, vv(q));
                } else {
                    l.insert(i, q[0], q[1], q[2]);
                }
                model.insert(i, q);
            }
            6 if n > 0 => {
                let i = c.rng.below(n);
                let g = l.remove(i);
                let w = model.remove(i);
                ensure!(g == vv(w), "remove", "step {step}: removed {g:?}, must be {w:?}");
            }
            7 if n > 0 => {
                let g = l.remove_last();
                let w = model.pop().unwrap();
                ensure!(g == vv(w), "remove-last", "step {step}: removed {g:?}, must be {w:?}");
            }
            8 if n > 0 => {
                l.set_last(vv(q));
                model[n - 1] = q;
            }
            9 => {
                closed_ = c.rng.chance(0.5);
                l.set_is_closed(closed_);
            }
            10 if c.rng.chance(0.3) => {
                l.clear();
                model.clear();
            }
            11 => l.reserve(c.rng.below(20)),
            12 => {
                let more: Vec<V> = (0..c.rng.below(4)).map(|_| rv(&mut c.rng)).collect();
                if c.rng.chance(0.5) {
                    l.extend_vertexes(more.iter().map(|q| vv(*q)));
                } else {
                    l.extend(&to_pl(&more, c.rng.chance(0.5)));
                }
                model.extend(more);
            }
            13 if n > 0 => {
                let i = c.rng.below(n);
                l[i] = vv(q);
                model[i] = q;
            }
            14 | 15 => {
                // repeats within the tolerance replace the bulge only
                let mut q = q;
                if n > 0 && c.rng.chance(0.6) {
                    let w = model[n - 1];
                    q = [w[0] + c.rng.pick(&[0.0, 3e-6, -3e-6, 3e-4]), w[1] + c.rng.pick(&[0.0, 3e-6]), q[2]];
                }
                if op == 14 {
                    l.add_or_replace_vertex(vv(q), 1e-5);
                } else {
                    l.add_or_replace(q[0], q[1], q[2], 1e-5);
                }
                match model.last_mut() {
                    Some(w) if (w[0] - q[0]).abs() < 1e-5 && (w[1] - q[1]).abs() < 1e-5 => w[2] = q[2],
                    _ => model.push(q),
                }
            }
            16 => {
                let k = l.clone();
                l = if c.rng.chance(0.5) { k } else { PL::create_from(&k) };
            }
            _ => {}
        }
        // ---- observe
        let n = model.len();
        ensure!(l.vertex_count() == n && l.is_empty() == (n == 0), "count", "step {step} ops {log:?}: {} vertexes, must be {n}", l.vertex_count());
        ensure!(l.is_closed() == closed_, "closed", "step {step} ops {log:?}: closed flag {}", l.is_closed());
        for (i, w) in model.iter().enumerate() {
            ensure!(l.get(i) == Some(vv(*w)) && l.at(i) == vv(*w) && l[i] == vv(*w), "vertex", "step {step} ops {log:?}: vertex {i} is {:?}, must be {w:?}", l.get(i));
        }
        ensure!(l.get(n).is_none() && l.get(n + 7).is_none(), "range", "vertex beyond the end");
        ensure!(l.last() == model.last().map(|w| vv(*w)), "last", "last vertex {:?} of {n}", l.last());
        let sc = if n < 2 { 0 } else if closed_ { n } else { n - 1 };
        ensure!(l.segment_count() == sc, "segment-count", "{} segments, must be {sc}", l.segment_count());
        c.ev("observed_states", 1);
    }
    c.input(format!("ops {log:?} {}", text(&model, closed_)));
    c.nontrivial();
    check_iterators(c, &l, &model, closed_)?;
    // equality by value with tolerance where stated
    let n = model.len();
    let same = to_pl(&model, closed_);
    ensure!(l.fuzzy_eq(&same) && l.fuzzy_eq_eps(&same, 1e-12), "equal", "equal polylines compare different");
    let flip = to_pl(&model, !closed_);
    ensure!(!l.fuzzy_eq(&flip), "equal", "open and closed compare equal");
    if n > 0 {
        let i = c.rng.below(n);
        let k = c.rng.below(3);
        let mut m2 = model.clone();
        m2[i][k] += 1e-3;
        let o = to_pl(&m2, closed_);
        ensure!(!l.fuzzy_eq(&o) && !l.fuzzy_eq_eps(&o, 0.9e-3) && l.fuzzy_eq_eps(&o, 1.1e-3) && o.fuzzy_eq_eps(&l, 1.1e-3), "equal", "a difference of 1e-3 in component {k} of vertex {i} is compared wrongly");
        m2.pop();
        ensure!(!to_pl(&m2, closed_).fuzzy_eq_eps(&l, 1e9) && !l.fuzzy_eq_eps(&to_pl(&m2, closed_), 1e9), "equal", "different vertex counts compare equal");
    }
    c.ev("histories", 1);
    Ok(())
}
fn check_iterators(c: &mut Case, l: &PL, model: &[V], closed_: bool) -> R {
    let n = model.len();
    let sc = if n < 2 { 0 } else if closed_ { n } else { n - 1 };
    // vertexes from both ends
    let mut it = l.iter_vertexes();
    let (mut lo, mut hi) = (0, n);
    loop {
        ensure!(it.size_hint() == (hi - lo, Some(hi - lo)) && it.len() == hi - lo, "iter-len", "{} vertexes left, {:?} promised", hi - lo, it.size_hint());
        if c.rng.chance(0.1) {
            it = it.clone();
        }
        if c.rng.chance(0.5) {
            let g = it.next();
            let w = if lo < hi { lo += 1; Some(vv(model[lo - 1])) } else { None };
            ensure!(g == w, "iter", "next gives {g:?}, must be {w:?}");
            if g.is_none() {
                break;
            }
        } else {
            let g = it.next_back();
            let w = if lo < hi { hi -= 1; Some(vv(model[hi])) } else { None };
            ensure!(g == w, "iter-back", "next_back gives {g:?}, must be {w:?}");
            if g.is_none() {
                break;
            }
        }
    }
    ensure!(it.next().is_none() && it.next_back().is_none(), "iter-end", "iterator continues after its end");
    // segments and segment indexes
    let mut it = l.iter_segments();
    let mut ix = l.iter_segment_indexes();
    for i in 0..sc {
        ensure!(it.size_hint() == (sc - i, Some(sc - i)) && it.len() == sc - i, "seg-len", "{} segments left, {:?} promised", sc - i, it.size_hint());
        ensure!(ix.size_hint() == (sc - i, Some(sc - i)), "seg-index-len", "{} segment indexes left, {:?} promised", sc - i, ix.size_hint());
        if c.rng.chance(0.1) {
            it = it.clone();
        }
        let j = (i + 1) % n;
        let g = it.next();
        ensure!(g == Some((vv(model[i]), vv(model[j]))), "seg-iter", "segment {i} is {g:?}");
        let g = ix.next();
        ensure!(g == Some((i, j)), "seg-index", "segment {i} has indexes {g:?}");
    }
    for _ in 0..2 {
        ensure!(it.size_hint() == (0, Some(0)) && it.len() == 0, "seg-len", "no segments left, {:?} promised", it.size_hint());
        ensure!(it.next().is_none() && ix.next().is_none() && ix.size_hint() == (0, Some(0)), "seg-end", "segment iterator continues after its end");
    }
    // index arithmetic
    for i in 0..n {
        ensure!(l.next_wrapping_index(i) == (i + 1) % n, "next-index", "next of {i} in {n} is {}", l.next_wrapping_index(i));
        ensure!(l.prev_wrapping_index(i) == (i + n - 1) % n, "prev-index", "previous of {i} in {n} is {}", l.prev_wrapping_index(i));
        let k = c.rng.below(n + 1);
        ensure!(l.fwd_wrapping_index(i, k) == (i + k) % n, "fwd-index", "{k} after {i} in {n} is {}", l.fwd_wrapping_index(i, k));
        let j = c.rng.below(n);
        ensure!(l.fwd_wrapping_dist(i, j) == (j + n - i) % n, "fwd-dist", "from {i} to {j} in {n} is {}", l.fwd_wrapping_dist(i, j));
    }
    c.ev("iterations", 1);
    Ok(())
}
fn c27_values(c: &mut Case) -> R {
    let q = rv(&mut c.rng);
    c.input(format!("{q:?}"));
    c.nontrivial();
    let a = PlineVertex::new(q[0], q[1], q[2]);
    ensure!(a.x == q[0] && a.y == q[1] && a.bulge == q[2], "vertex", "components differ");
    ensure!(PlineVertex::from_slice(&q) == Some(a) && PlineVertex::from_slice(&q[..2]).is_none(), "from-slice", "from_slice differs");
    ensure!(PlineVertex::<f64>::from_slice(&[q[0], q[1], q[2], 0.0]).is_none() && PlineVertex::<f64>::from_slice(&[]).is_none(), "from-slice", "from_slice accepts a wrong length");
    ensure!(PlineVertex::from_vector2(Vector2::new(q[0], q[1]), q[2]) == a && a.pos() == Vector2::new(q[0], q[1]), "position", "position differs");
    let b = c.rng.pick(&[0.0, 1.0, -1.0, 1e-9, -1e-9, 1e-7, -1e-7, 0.3]);
    let w = a.with_bulge(b);
    ensure!(w.x == a.x && w.y == a.y && w.bulge == b && a.bulge == q[2], "with-bulge", "with_bulge gives {w:?}");
    ensure!(w.bulge_is_zero() == (b.abs() < 1e-8) && w.bulge_is_pos() == (b > 0.0) && w.bulge_is_neg() == (b < 0.0), "bulge-sign", "bulge {b}");
    let d = c.rng.pick(&[0.5, 2.0]);
    let eps = c.rng.logrange(1e-9, 1e-2);
    let k = c.rng.below(3);
    let mut o = q;
    o[k] += c.rng.sign() * d * eps;
    let o = vv(o);
    ensure!(a.fuzzy_eq_eps(o, eps) == (d < 1.0) && o.fuzzy_eq_eps(a, eps) == (d < 1.0), "vertex-eq", "difference {d} x {eps:e} in component {k}");
    ensure!(format!("{a}") == format!("[{}, {}, {}]", q[0], q[1], q[2]), "display", "{a}");
    // literals
    let m: PL = cavalier_contours_macros(q, c.rng.chance(0.5))?;
    let _ = m;
    c.ev("vertex_values", 1);
    Ok(())
}
fn cavalier_contours_macros(q: V, closed_: bool) -> Result<PL, Fail> {
    use cavalier_contours::{pline_closed, pline_open};
    let l: PL = if closed_ { pline_closed![(q[0], q[1], q[2]), (1.0, 2.0, 0.5), (q[1], q[0], 0.0)] } else { pline_open![(q[0], q[1], q[2]), (1.0, 2.0, 0.5), (q[1], q[0], 0.0)] };
    let w: Vec<V> = vec![q, [1.0, 2.0, 0.5], [q[1], q[0], 0.0]];
    ensure!(l.is_closed() == closed_ && verts(&l) == w, "literal", "literal gives {}", text(&verts(&l), l.is_closed()));
    Ok(l)
}

/// polylines of dozens to hundreds of vertexes
fn c17_large(c: &mut Case) -> R {
    size_class(&mut c.rng);
    c17(c)
}
fn c19_large(c: &mut Case) -> R {
    size_class(&mut c.rng);
    c19(c)
}
fn c20_large(c: &mut Case) -> R {
    size_class(&mut c.rng);
    c20(c)
}
fn c27_large(c: &mut Case) -> R {
    size_class(&mut c.rng);
    c27(c)
}
fn c18_large(c: &mut Case) -> R {
    size_class(&mut c.rng);
    if c.rng.chance(0.5) { c18(c) } else { c18_rotate(c) }
}
fn size_class(r: &mut Rng) {
    if r.chance(0.35) { r.fine = true } else { r.big = true }
}
fn main() {
    let _ = (TAU, PI);
    cavc_monitor::rep::main(vec![
        Property {
            id: "C17",
            rule: "random polyline of any kind under a history of scalings (also negative), translations and reversals; non-trivial with two or more vertexes; oracle: transformed curve",
            classes: vec![Class { name: "wild", quick: 200000, thorough: 5000000, f: c17 }, Class { name: "large", quick: 10000, thorough: 100000, f: c17_large },
            ],
            floors: vec![("scales", 50000), ("translations", 50000), ("reversals", 50000)],
            rates: vec![],
        },
        Property {
            id: "C18",
            rule: "random polyline with redundant vertexes (repeats exact or within tolerance, points along lines and arcs, around the start), restarts at vertexes and inside segments; non-trivial with three or more vertexes; oracle: arc length parametrised comparison of both curves and an independent three valued redundancy test",
            classes: vec![
                Class { name: "simplify", quick: 200000, thorough: 5000000, f: c18 },
                Class { name: "short", quick: 60000, thorough: 1000000, f: c18_all_equal },
                Class { name: "restart", quick: 150000, thorough: 3000000, f: c18_rotate }, Class { name: "large", quick: 30000, thorough: 100000, f: c18_large },
                Class { name: "short", quick: 50000, thorough: 500000, f: c18_short },
            ],
            floors: vec![("simplified", 50000), ("no_change", 20000), ("restarted", 40000), ("restarted_inside_segment", 15000), ("refused", 5000), ("short_polylines", 50000)],
            rates: vec![],
        },
        Property {
            id: "C19",
            rule: "random polyline and error from 1e-5 to 3 times the size, also negative; non-trivial with arcs; oracle: analytic arc distance both ways, walk along the original vertexes",
            classes: vec![Class { name: "wild", quick: 100000, thorough: 2000000, f: c19 }, Class { name: "large", quick: 10000, thorough: 100000, f: c19_large },
            ],
            floors: vec![("arcs_converted", 100000), ("lines_kept", 50000)],
            rates: vec![],
        },
        Property {
            id: "C20",
            rule: "random polyline without repeated positions; stretches between two positions at vertexes or inside segments, wrapping or collapsed, whole, new starts, inverted, views over views; oracle: explicitly cut path compared by arc length and bitwise comparison of view and copy",
            classes: vec![Class { name: "views", quick: 150000, thorough: 4000000, f: c20 }, Class { name: "large", quick: 30000, thorough: 100000, f: c20_large },
            ],
            floors: vec![("views", 80000), ("inverted_views", 80000), ("slices", 30000), ("no_view", 1000), ("nested_views", 15000)],
            rates: vec![],
        },
        Property {
            id: "C27",
            rule: "random histories of container edits, iterator use from both ends, index arithmetic, vertex values; oracle: list model",
            classes: vec![
                Class { name: "histories", quick: 100000, thorough: 2000000, f: c27 },
                Class { name: "values", quick: 100000, thorough: 1000000, f: c27_values }, Class { name: "large", quick: 30000, thorough: 100000, f: c27_large },
            ],
            floors: vec![("histories", 90000), ("observed_states", 2000000), ("iterations", 90000), ("vertex_values", 90000)],
            rates: vec![],
        },
    ])
}
