//! C09 intersections of two polylines, C10 self intersections, C11 primitives
use cavalier_contours::core::Control;
use cavalier_contours::core::math::*;
use cavalier_contours::core::traits::ControlFlow;
use cavalier_contours::polyline::*;
use cavc_monitor::ensure;
use cavc_monitor::gen_::{self, Style};
use cavc_monitor::geom::*;
use cavc_monitor::lib_api::*;
use cavc_monitor::rep::*;
use cavc_monitor::rng::Rng;

type Key = (usize, usize);

/// compare a reported list (i1, i2, point) with the expected one, both as multisets
fn match_sets(got: &[(Key, P)], want: &[(Key, P)], tol: f64, what: &str) -> R {
    let mut used = vec![false; got.len()];
    for (k, q) in want {
        let hit = (0..got.len()).find(|&i| !used[i] && got[i].0 == *k && got[i].1.dist(*q) < tol);
        match hit {
            Some(i) => used[i] = true,
            None => return fail("missing-intersect", format!("{what}: crossing of segments {} and {} at ({:?},{:?}) is not reported once", k.0, k.1, q.x, q.y)),
        }
    }
    if let Some(i) = used.iter().position(|u| !u) {
        let (k, q) = got[i];
        return fail("invented-intersect", format!("{what}: reported intersect of segments {} and {} at ({:?},{:?}) does not exist or is a duplicate", k.0, k.1, q.x, q.y));
    }
    Ok(())
}

fn any_path(r: &mut Rng, style: Style, simple: bool) -> Path {
    if r.chance(0.5) { gen_::closed(r, style, 0.08) } else { gen_::open(r, style, simple, 0.08) }
}

fn basics(x: &PlineIntersectsCollection<f64>) -> Vec<(Key, P)> {
    x.basic_intersects.iter().map(|i| ((i.start_index1, i.start_index2), pt(i.point))).collect()
}

fn in_range(x: &PlineIntersectsCollection<f64>, a: &Path, b: &Path) -> R {
    for i in &x.basic_intersects {
        ensure!(i.start_index1 < a.segs.len() && i.start_index2 < b.segs.len(), "index-range", "reported segments {} and {} do not exist", i.start_index1, i.start_index2);
    }
    for i in &x.overlapping_intersects {
        ensure!(i.start_index1 < a.segs.len() && i.start_index2 < b.segs.len(), "index-range", "reported overlapping segments {} and {} do not exist", i.start_index1, i.start_index2);
    }
    Ok(())
}

fn c09_general(c: &mut Case) -> R {
    let (a, b, k) = loop {
        let r = &mut c.rng;
        let (s1, s2) = (r.chance(0.7), r.chance(0.7));
        let a = any_path(r, Style::General, s1);
        let big = r.big;
        // mostly large against small
        r.big = big && r.chance(0.1);
        let b = any_path(r, Style::General, s2);
        r.big = big;
        let kb = r.logrange(0.3, 1.5);
        let b = Path::new(transform(&b.v, kb, r.range(0.0, 6.3), r.range(-4.0, 4.0), r.range(-4.0, 4.0)), b.closed);
        if !general_position(&a, &b, 2e-3, 0.02) {
            continue;
        }
        let (v, k) = gen_::place(r, &[&a, &b], (0.5, 20.0), 5.0);
        let mut it = v.into_iter();
        break (it.next().unwrap(), it.next().unwrap(), k);
    };
    c.input(format!("{} {}", ptext(&a), ptext(&b)));
    let mut want = vec![];
    for (i, s) in a.segs.iter().enumerate() {
        for (j, t) in b.segs.iter().enumerate() {
            for q in seg_isect(s, t, 0.0).pts {
                want.push(((i, j), q));
            }
        }
    }
    if !want.is_empty() {
        c.nontrivial();
    }
    let tol = 1e-6 * (1.0 + k) * 10.0;
    let (pa, pb) = (to_pl(&a.v, a.closed), to_pl(&b.v, b.closed));
    let (ix, ixe) = (pa.create_approx_aabb_index(), pa.create_aabb_index());
    let eps = c.rng.pick(&[1e-5, 1e-5, 1e-6, 1e-7]);
    for (how, o) in [
        ("default", FindIntersectsOptions::default()),
        ("approximate index", FindIntersectsOptions { pline1_aabb_index: Some(&ix), ..Default::default() }),
        ("exact index", FindIntersectsOptions { pline1_aabb_index: Some(&ixe), ..Default::default() }),
        ("other epsilon", FindIntersectsOptions { pline1_aabb_index: None, pos_equal_eps: eps }),
    ] {
        let got = pa.find_intersects_opt(&pb, &o);
        in_range(&got, &a, &b)?;
        ensure!(got.overlapping_intersects.is_empty(), "invented-overlap", "{how}: overlap reported where none is: {:?}", got.overlapping_intersects[0]);
        let g = basics(&got);
        match_sets(&g, &want, tol, how)?;
        // two crossings of one pair of segments come in the order of the second segment
        for x in 0..g.len() {
            for y in x + 1..g.len() {
                if g[x].0 == g[y].0 {
                    let t = &b.segs[g[x].0.1];
                    let (u, w) = (t.closest(g[x].1).0, t.closest(g[y].1).0);
                    ensure!(u < w, "intersect-order", "{how}: the two intersects of segments {:?} are not in order along the second ({u} then {w})", g[x].0);
                    c.ev("ordered_double_crossings", 1);
                }
            }
        }
        c.ev("intersects_compared", g.len() as u64);
    }
    let g = basics(&pa.find_intersects(&pb));
    let s: Vec<(Key, P)> = basics(&pb.find_intersects(&pa)).into_iter().map(|((i, j), q)| ((j, i), q)).collect();
    match_sets(&s, &want, tol, "swapped arguments")?;
    // a view of the whole polyline is the same polyline
    let vd = PlineViewData::from_entire_pline(&pa);
    let vw = vd.view(&pa);
    match_sets(&basics(&vw.find_intersects(&pb)), &want, tol, "view of the whole first polyline")?;
    Ok(())
}

fn grid_pair(r: &mut Rng) -> (Path, Path, f64, bool) {
    let a = any_path(r, Style::Grid, true);
    let b = match r.below(8) {
        0 => {
            let mut v = a.v.clone();
            if r.chance(0.5) {
                v = reverse(&v, a.closed);
            }
            if r.chance(0.4) {
                v = gen_::subdivide(r, &v, a.closed, 0.5);
            }
            if a.closed {
                let k = r.below(v.len());
                v = rotate(&v, k);
            }
            Path::new(v, a.closed)
        }
        1 if a.v.len() >= 3 => {
            // stretch of a, sometimes reversed
            let n = a.v.len();
            let i = r.below(n - 1);
            let j = r.int(i as i64 + 1, n as i64 - 1) as usize;
            let mut v = a.v[i..=j].to_vec();
            if r.chance(0.5) {
                v = reverse(&v, false);
            }
            Path::new(v, false)
        }
        _ => {
            let b = any_path(r, Style::Grid, true);
            let st = if r.chance(0.7) { 1.0 } else { 0.5 };
            let (dx, dy) = (r.int(-3, 3) as f64 * st, r.int(-3, 3) as f64 * st);
            let rot = r.below(4);
            let v: Vec<V> = b
                .v
                .iter()
                .map(|q| {
                    let mut q = *q;
                    for _ in 0..rot {
                        q = [-q[1], q[0], q[2]];
                    }
                    [q[0] + dx, q[1] + dy, q[2]]
                })
                .collect();
            Path::new(v, b.closed)
        }
    };
    if r.chance(0.35) {
        let (v, k) = gen_::place_near(r, &[&a, &b], (0.5, 20.0), 3.0);
        let mut it = v.into_iter();
        return (it.next().unwrap(), it.next().unwrap(), k, true);
    }
    (a, b, 1.0, false)
}

/// on grid data contacts are exact, everything else is clearly apart
fn grid_clear(a: &Path, b: &Path, k: f64) -> bool {
    for (i, s) in a.segs.iter().enumerate() {
        for (j, t) in b.segs.iter().enumerate() {
            if box_gap(&a.boxes[i], &b.boxes[j]) > 1e-2 * k {
                continue;
            }
            if same_carrier(s, t, 1e-9 * k) {
                continue;
            }
            let ct = contacts(s, t, 1e-9 * k);
            // no almost contact: end points near but not on, almost tangent without being it
            for (x, y) in [(s, t), (t, s)] {
                for q in [x.a(), x.b()] {
                    let d = y.dist(q);
                    if d > 1e-9 * k && d < 5e-3 * k {
                        return false;
                    }
                }
            }
            let is = seg_isect(s, t, 5e-3 * k);
            if is.ambiguous && ct.is_empty() {
                return false;
            }
            for q in &is.pts {
                let (u, w) = (s.tan(s.closest(*q).0), t.tan(t.closest(*q).0));
                let cr = u.cross(w).abs();
                if cr > 1e-7 && cr < 0.02 {
                    return false;
                }
            }
            // contacts are the same point or clearly apart
            for x in &ct {
                for y in &ct {
                    let d = x.dist(*y);
                    if d > 1e-6 * k && d < 1e-2 * k {
                        return false;
                    }
                }
            }
        }
    }
    true
}

fn c09_grid(c: &mut Case) -> R {
    let (a, b, k, _) = grid_pair(&mut c.rng);
    c.input(format!("{} {}", ptext(&a), ptext(&b)));
    if !grid_clear(&a, &b, k) {
        c.skip();
        return Ok(());
    }
    let (pa, pb) = (to_pl(&a.v, a.closed), to_pl(&b.v, b.closed));
    let ix = pa.create_aabb_index();
    let opt = if c.rng.chance(0.5) { FindIntersectsOptions { pline1_aabb_index: Some(&ix), ..Default::default() } } else { FindIntersectsOptions::default() };
    let got = pa.find_intersects_opt(&pb, &opt);
    in_range(&got, &a, &b)?;
    let tol = 5e-5;
    let simple = is_simple(&a, 0.01 * k) && is_simple(&b, 0.01 * k);
    // soundness
    for x in &got.basic_intersects {
        let q = pt(x.point);
        let (s, t) = (&a.segs[x.start_index1], &b.segs[x.start_index2]);
        ensure!(s.dist(q) < tol && t.dist(q) < tol, "unsound-intersect", "reported intersect ({:?},{:?}) is {:e} / {:e} away from its segments {} and {}", q.x, q.y, s.dist(q), t.dist(q), x.start_index1, x.start_index2);
        // an intersect at a vertex belongs to the segment that starts there
        for (pa, sg, i) in [(&a, s, x.start_index1), (&b, t, x.start_index2)] {
            if q.dist(sg.b()) < 1e-6 {
                ensure!(!pa.closed && i + 1 == pa.segs.len(), "intersect-index", "intersect at ({:?},{:?}) is the end of segment {i}, it must be recorded for the segment that starts there", q.x, q.y);
            }
        }
        c.ev("basic_intersects", 1);
    }
    let mut runs = vec![];
    for x in &got.overlapping_intersects {
        let (s, t) = (&a.segs[x.start_index1], &b.segs[x.start_index2]);
        let (q1, q2) = (pt(x.point1), pt(x.point2));
        let (t1, t2) = (t.closest(q1).0, t.closest(q2).0);
        ensure!(s.dist(q1) < tol && t.dist(q1) < tol && s.dist(q2) < tol && t.dist(q2) < tol, "unsound-overlap", "overlap end points ({:?},{:?}) ({:?},{:?}) are not on segments {} and {}", q1.x, q1.y, q2.x, q2.y, x.start_index1, x.start_index2);
        ensure!(t1 < t2, "overlap-order", "overlap of segments {} and {} is not ordered along the second ({t1} then {t2})", x.start_index1, x.start_index2);
        for f in [0.25, 0.5, 0.75] {
            let q = t.at(t1 + (t2 - t1) * f);
            ensure!(s.dist(q) < tol, "unsound-overlap", "point ({:?},{:?}) of the overlap of segments {} and {} is {:e} away from the first", q.x, q.y, x.start_index1, x.start_index2, s.dist(q));
        }
        // the ends are true ends: end points of one of the segments
        for q in [q1, q2] {
            let e = [s.a(), s.b(), t.a(), t.b()].iter().map(|z| z.dist(q)).fold(f64::MAX, f64::min);
            ensure!(e < tol, "overlap-ends", "overlap of segments {} and {} ends at ({:?},{:?}) inside of both", x.start_index1, x.start_index2, q.x, q.y);
        }
        runs.push((x.start_index1, x.start_index2, t1, t2));
        c.ev("overlap_runs", 1);
    }
    for x in 0..runs.len() {
        for y in x + 1..runs.len() {
            let (p1, p2) = (runs[x], runs[y]);
            ensure!((p1.0, p1.1) != (p2.0, p2.1), "duplicate-overlap", "overlap of segments {} and {} reported twice", p1.0, p1.1);
        }
    }
    // coverage
    let covered = |q: P| {
        got.basic_intersects.iter().any(|x| pt(x.point).dist(q) < tol)
            || runs.iter().any(|&(_, j, t1, t2)| {
                let t = &b.segs[j];
                let (u, d) = t.closest(q);
                let sl = 2.0 * tol / t.len();
                d < tol && u >= t1 - sl && u <= t2 + sl
            })
    };
    let mut any = false;
    for (i, s) in a.segs.iter().enumerate() {
        for (j, t) in b.segs.iter().enumerate() {
            if box_gap(&a.boxes[i], &b.boxes[j]) > 1e-6 * k {
                continue;
            }
            for q in contacts(s, t, 1e-9 * k) {
                any = true;
                ensure!(covered(q), "missing-intersect", "contact of segments {i} and {j} at ({:?},{:?}) is not reported", q.x, q.y);
                c.ev("contacts_checked", 1);
            }
            if same_carrier(s, t, 1e-9 * k) {
                for f in params(11) {
                    let q = s.at(f);
                    let (u, d) = t.closest(q);
                    // clearly inside of both
                    if d < 1e-9 * k && u > 1e-3 && u < 1.0 - 1e-3 {
                        let hit = runs.iter().any(|&(x, y, t1, t2)| x == i && y == j && u >= t1 - 1e-6 && u <= t2 + 1e-6);
                        ensure!(hit, "missing-overlap", "segments {i} and {j} overlap at ({:?},{:?}), not reported", q.x, q.y);
                        c.ev("overlap_points_checked", 1);
                    }
                }
            }
        }
    }
    if any {
        c.nontrivial();
    }
    // no duplicates
    if simple {
        let g = basics(&got);
        for x in 0..g.len() {
            for y in x + 1..g.len() {
                ensure!(g[x].1.dist(g[y].1) > 1e-6 * k, "duplicate-intersect", "contact ({:?},{:?}) reported for segments {:?} and {:?}", g[x].1.x, g[x].1.y, g[x].0, g[y].0);
            }
        }
    }
    Ok(())
}

/// contacts that exist only within the requested tolerance: an end that stops short by a small gap
fn c09_eps(c: &mut Case) -> R {
    let r = &mut c.rng;
    let gap = r.logrange(1e-5, 3e-3);
    // target segment, line or arc
    let b = if r.chance(0.5) { r.sign() * r.range(0.1, 1.0) } else { 0.0 };
    let t = Seg::new([-3.0, 0.0, b], [4.0, 0.0, 0.0]);
    let f = r.range(0.2, 0.8);
    let q = t.at(f);
    let dir = t.tan(f).left() * r.sign();
    let dir = { let th = r.range(-0.6, 0.6); p(dir.x * th.cos() - dir.y * th.sin(), dir.x * th.sin() + dir.y * th.cos()) };
    let end = q + dir * gap;
    let far = q + dir * 3.0;
    let real_gap = t.dist(end);
    // only judged where the straight stub does not meet the arc elsewhere
    let stub = Seg::L { a: end, b: far };
    if seg_seg_dist(&stub, &t) < real_gap * 0.999 || real_gap < 0.5 * gap {
        c.skip();
        return Ok(());
    }
    let rot = r.range(0.0, 6.3);
    let (tx, ty) = (r.range(-3.0, 3.0), r.range(-3.0, 3.0));
    let va = transform(&[[-3.0, 0.0, b], [4.0, 0.0, 0.0]], 1.0, rot, tx, ty);
    let vb = transform(&[[end.x, end.y, 0.0], [far.x, far.y, 0.0]], 1.0, rot, tx, ty);
    let vb = if r.chance(0.5) { reverse(&vb, false) } else { vb };
    c.input(format!("gap {real_gap:?} {} {}", text(&va, false), text(&vb, false)));
    c.nontrivial();
    let (pa, pb) = (to_pl(&va, false), to_pl(&vb, false));
    let (pa, pb) = if c.rng.chance(0.5) { (pa, pb) } else { (pb, pa) };
    for (eps, yes) in [(8.0 * real_gap, true), (real_gap / 8.0, false)] {
        let o = FindIntersectsOptions { pline1_aabb_index: None, pos_equal_eps: eps };
        let g = pa.find_intersects_opt(&pb, &o);
        let n = g.basic_intersects.len() + g.overlapping_intersects.len();
        if yes {
            ensure!(n >= 1, "eps", "end {real_gap:e} away not found with epsilon {eps:e}");
            c.ev("found_within_eps", 1);
        } else {
            ensure!(n == 0, "eps", "end {real_gap:e} away reported as contact with epsilon {eps:e}");
            c.ev("not_found_outside_eps", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

#[derive(Default)]
struct Log {
    ev: Vec<(Key, P, Option<P>)>,
    stop_after: usize,
}
#[derive(Debug, PartialEq)]
enum Flow {
    Go,
    Stop(usize),
}
impl ControlFlow for Flow {
    fn continuing() -> Self {
        Flow::Go
    }
    fn should_break(&self) -> bool {
        matches!(self, Flow::Stop(_))
    }
}
impl PlineIntersectVisitor<f64, Flow> for Log {
    fn visit_basic_intr(&mut self, i: PlineBasicIntersect<f64>) -> Flow {
        self.ev.push(((i.start_index1, i.start_index2), pt(i.point), None));
        if self.ev.len() == self.stop_after { Flow::Stop(self.ev.len()) } else { Flow::Go }
    }
    fn visit_overlapping_intr(&mut self, i: PlineOverlappingIntersect<f64>) -> Flow {
        self.ev.push(((i.start_index1, i.start_index2), pt(i.point1), Some(pt(i.point2))));
        if self.ev.len() == self.stop_after { Flow::Stop(self.ev.len()) } else { Flow::Go }
    }
}

fn adjacent(n: usize, closed: bool, i: usize, j: usize) -> bool {
    i + 1 == j || j + 1 == i || (closed && ((i == 0 && j == n - 1) || (j == 0 && i == n - 1)))
}

/// self crossing path, all contacts in general position. None: not in general position
fn self_expected(pa: &Path, m: f64) -> Option<(Vec<(Key, P)>, Vec<(Key, P)>)> {
    let n = pa.segs.len();
    let (mut local, mut global) = (vec![], vec![]);
    for i in 0..n {
        for j in i + 1..n {
            let (s, t) = (&pa.segs[i], &pa.segs[j]);
            if !adjacent(n, pa.closed, i, j) {
                if box_gap(&pa.boxes[i], &pa.boxes[j]) > m {
                    continue;
                }
                if !pair_general(s, t, m, 0.02) {
                    return None;
                }
                for q in seg_isect(s, t, 0.0).pts {
                    global.push(((i, j), q));
                }
                continue;
            }
            if n == 2 && pa.closed {
                // two segments between the same two points: no further crossing is possible
                if s.at(0.5).dist(t.at(0.5)) < 0.05 {
                    return None;
                }
                continue;
            }
            let fwd = i + 1 == j;
            let (s, t) = if fwd { (s, t) } else { (t, s) };
            let v = s.b();
            // far ends clear of the other segment, no fold at the joint
            if t.dist(s.a()) < m || s.dist(t.b()) < m {
                return None;
            }
            let (u, w) = (s.tan(1.0), t.tan(0.0));
            // almost tangent joints and folds graze the tolerances, exact smooth joints are fine
            let smooth = u.cross(w).abs() < 1e-9 && u.dot(w) > 0.0;
            if !smooth && u.cross(w).abs() < 0.02 {
                return None;
            }
            if smooth && same_carrier(s, t, 1e-6) {
                continue;
            }
            // almost tangent carriers are documented to stick to one point
            if !smooth && near_tangent(s, t, 1e-4) {
                return None;
            }
            for q in seg_isect(s, t, 0.0).pts {
                if q.dist(v) < 1e-6 {
                    continue;
                }
                let (u, w) = (s.tan(s.closest(q).0), t.tan(t.closest(q).0));
                if q.dist(v) < m || u.cross(w).abs() < 0.02 {
                    return None;
                }
                local.push(((i, j), q));
            }
            // almost second contact
            let is = seg_isect(s, t, m);
            let _ = is;
            for f in params(24) {
                let q = s.at(f);
                if q.dist(v) > 40.0 * m && t.dist(q) < 2.0 * m && !local.iter().any(|((x, y), z)| *x == i && *y == j && z.dist(q) < 300.0 * m) {
                    return None;
                }
            }
        }
    }
    Some((local, global))
}

/// a circle tangent to the other segment's line or circle within `e`
fn near_tangent(s: &Seg, t: &Seg, e: f64) -> bool {
    match (*s, *t) {
        (Seg::L { .. }, Seg::L { .. }) => false,
        (Seg::L { a, b }, Seg::A { c, r, .. }) | (Seg::A { c, r, .. }, Seg::L { a, b }) => ((c - a).cross((b - a).unit()).abs() - r).abs() < e,
        (Seg::A { c: c1, r: r1, .. }, Seg::A { c: c2, r: r2, .. }) => (c1.dist(c2) - (r1 + r2)).abs() < e || (c1.dist(c2) - (r1 - r2).abs()).abs() < e,
    }
}

fn pairs(ev: &[(Key, P, Option<P>)]) -> Vec<(Key, P)> {
    ev.iter().map(|((i, j), q, _)| (((*i).min(*j), (*i).max(*j)), *q)).collect()
}

fn c10_general(c: &mut Case) -> R {
    let mut tries = 0;
    let (a, local, global, k) = loop {
        tries += 1;
        let r = &mut c.rng;
        let closed = r.chance(0.5);
        let mut v = gen_::open(r, Style::General, false, 0.08).v;
        if closed {
            let l = v.len() - 1;
            if r.chance(0.4) {
                v[l][2] = r.sign() * r.range(0.1, 1.0);
            }
        }
        if tries > 20 {
            v = gen_::closed(r, Style::General, 0.08).v;
        }
        let a = Path::new(v, closed || tries > 20);
        let m = 2e-3;
        if a.segs.iter().any(|s| s.len() < 0.05) {
            continue;
        }
        let Some((l, g)) = self_expected(&a, m) else { continue };
        if l.is_empty() && g.is_empty() && tries < 10 {
            continue;
        }
        let (pl, k) = gen_::place(r, &[&a], (0.5, 20.0), 5.0);
        let _ = (l, g);
        let a = pl.into_iter().next().unwrap();
        let Some((l, g)) = self_expected(&a, m * k * 0.99) else { continue };
        break (a, l, g, k);
    };
    c.input(ptext(&a));
    if !local.is_empty() || !global.is_empty() {
        c.nontrivial();
    }
    let tol = 1e-5 * (1.0 + k);
    let pa = to_pl(&a.v, a.closed);
    let (ix, ixe) = (pa.create_approx_aabb_index(), pa.create_aabb_index());
    let mut all = local.clone();
    all.extend(global.iter().cloned());
    for (how, index) in [("no index", None), ("approximate index", Some(&ix)), ("exact index", Some(&ixe))] {
        for (inc, want, name) in [
            (SelfIntersectsInclude::All, &all, "all"),
            (SelfIntersectsInclude::Local, &local, "local"),
            (SelfIntersectsInclude::Global, &global, "global"),
        ] {
            let o = PlineSelfIntersectOptions { aabb_index: index, include: inc, ..Default::default() };
            let mut l = Log::default();
            let ret = pa.visit_self_intersects_opt(&mut l, &o);
            ensure!(ret == Flow::Go, "visit-return", "{how} {name}: visiting everything returned {ret:?}");
            if let Some(x) = l.ev.iter().find(|e| e.2.is_some()) {
                return fail("invented-overlap", format!("{how} {name}: overlap reported where none is: segments {:?}", x.0));
            }
            match_sets(&pairs(&l.ev), want, tol, &format!("{how} {name}"))?;
            c.ev("self_intersects_compared", want.len() as u64);
            if !want.is_empty() {
                let stop = 1 + c.rng.below(want.len());
                let mut s = Log { stop_after: stop, ..Default::default() };
                let ret = pa.visit_self_intersects_opt(&mut s, &o);
                ensure!(ret == Flow::Stop(stop) && s.ev.len() == stop, "early-stop", "{how} {name}: asked to stop after {stop} of {}, visited {} and returned {ret:?}", want.len(), s.ev.len());
                c.ev("early_stops", 1);
                // what was visited before the stop are the first ones of the full log
                for (x, y) in s.ev.iter().zip(&l.ev) {
                    ensure!(x.0 == y.0 && x.1.dist(y.1) < tol, "early-stop", "{how} {name}: visits before the stop differ from the full visit");
                }
            }
        }
    }
    let mut l = Log::default();
    let ret = pa.visit_self_intersects(&mut l);
    ensure!(ret == Flow::Go, "visit-return", "default visit returned {ret:?}");
    match_sets(&pairs(&l.ev), &all, tol, "default options")?;
    // closures are visitors too, with the library's own control type
    let mut n = 0usize;
    let mut cl = |_i: PlineIntersect<f64>| -> Control<u32> {
        n += 1;
        if n == 1 { Control::Break(7) } else { Control::Continue }
    };
    let ret = pa.visit_self_intersects(&mut cl);
    match ret {
        Control::Break(b) => ensure!(b == 7 && n == 1 && !all.is_empty(), "early-stop", "closure visitor: break after {n} visits"),
        Control::Continue => ensure!(all.is_empty() && n == 0, "early-stop", "closure visitor: {n} visits of {} without the break", all.len()),
    }
    Ok(())
}

fn c10_grid(c: &mut Case) -> R {
    let r = &mut c.rng;
    let closed = r.chance(0.5);
    let v = gen_::open(r, Style::Grid, false, 0.05).v;
    let a = Path::new(v, closed);
    c.input(ptext(&a));
    if a.segs.iter().any(|s| s.len() < 0.05) || a.v.len() < 3 {
        c.skip();
        return Ok(());
    }
    let n = a.segs.len();
    // skip near contacts that are not contacts
    for i in 0..n {
        for j in i + 1..n {
            let (s, t) = (Path { v: vec![], segs: vec![a.segs[i]], boxes: vec![a.boxes[i]], closed: false }, Path { v: vec![], segs: vec![a.segs[j]], boxes: vec![a.boxes[j]], closed: false });
            if !grid_clear(&s, &t, 1.0) {
                c.skip();
                return Ok(());
            }
        }
    }
    let pa = to_pl(&a.v, closed);
    let mut logs = vec![];
    for inc in [SelfIntersectsInclude::All, SelfIntersectsInclude::Local, SelfIntersectsInclude::Global] {
        let mut l = Log::default();
        pa.visit_self_intersects_opt(&mut l, &PlineSelfIntersectOptions { include: inc, ..Default::default() });
        for (key, q, e) in &l.ev {
            ensure!(key.0 < n && key.1 < n && key.0 != key.1, "index-range", "{inc:?}: segments {key:?} reported of {n}");
            let adj = adjacent(n, closed, key.0, key.1);
            match inc {
                SelfIntersectsInclude::Local => ensure!(adj, "include", "local visit reports non adjacent segments {key:?}"),
                SelfIntersectsInclude::Global => ensure!(!adj, "include", "global visit reports adjacent segments {key:?}"),
                _ => {}
            }
            for z in [Some(*q), *e].into_iter().flatten() {
                let d = a.segs[key.0].dist(z).max(a.segs[key.1].dist(z));
                ensure!(d < 5e-5, "unsound-intersect", "{inc:?}: ({:?},{:?}) is {d:e} away from segments {key:?}", z.x, z.y);
            }
            if let Some(e) = e {
                let t = &a.segs[key.1];
                let (t1, t2) = (t.closest(*q).0, t.closest(*e).0);
                let z = t.at((t1 + t2) / 2.0);
                ensure!(a.segs[key.0].dist(z) < 5e-5, "unsound-overlap", "{inc:?}: middle of the overlap of {key:?} is not on both");
                ensure!(t1 < t2 || n == 2, "overlap-order", "{inc:?}: overlap of {key:?} not ordered along the second segment");
                c.ev("overlap_runs", 1);
            }
            c.ev("self_contacts_reported", 1);
        }
        logs.push(l);
    }
    // all = local + global
    ensure!(logs[0].ev.len() == logs[1].ev.len() + logs[2].ev.len(), "include", "all visits {} contacts, local {} and global {}", logs[0].ev.len(), logs[1].ev.len(), logs[2].ev.len());
    // every contact is reported: as a point or inside an overlap
    for i in 0..n {
        for j in i + 1..n {
            let adj = adjacent(n, closed, i, j);
            let (s, t) = (&a.segs[i], &a.segs[j]);
            let shared: Vec<P> = if adj {
                let mut v = vec![];
                for x in [s.a(), s.b()] {
                    for y in [t.a(), t.b()] {
                        if x.dist(y) < 1e-9 {
                            v.push(x);
                        }
                    }
                }
                v
            } else {
                vec![]
            };
            let log = &logs[0].ev;
            for q in contacts(s, t, 1e-9) {
                if adj && (shared.iter().any(|z| z.dist(q) < 1e-6)) {
                    continue;
                }
                let hit = log.iter().any(|(key, z, e)| {
                    z.dist(q) < 5e-5
                        || e.map(|e| {
                            let t = &a.segs[key.1];
                            let (t1, t2, (u, d)) = (t.closest(*z).0, t.closest(e).0, t.closest(q));
                            d < 5e-5 && u >= t1.min(t2) - 1e-4 && u <= t1.max(t2) + 1e-4
                        })
                        .unwrap_or(false)
                });
                ensure!(hit, "missing-intersect", "contact of segments {i} and {j} at ({:?},{:?}) is not reported", q.x, q.y);
                c.ev("contacts_checked", 1);
                c.nontrivial();
            }
            // overlapping pairs are reported as such
            if same_carrier(s, t, 1e-9) {
                let inner = params(11).any(|f| {
                    let (u, d) = t.closest(s.at(f));
                    d < 1e-9 && u > 1e-3 && u < 1.0 - 1e-3
                });
                if inner {
                    let hit = logs[0].ev.iter().any(|(k, _, e)| e.is_some() && ((k.0 == i && k.1 == j) || (k.0 == j && k.1 == i)));
                    ensure!(hit, "missing-overlap", "segments {i} and {j} overlap, not reported");
                    c.ev("overlaps_checked", 1);
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

fn rnd_seg(r: &mut Rng, style: Style) -> (V, V) {
    match style {
        Style::General => {
            let a = p(r.range(-5.0, 5.0), r.range(-5.0, 5.0));
            let l = r.logrange(0.1, 12.0);
            let b = a + polar(p(0.0, 0.0), l, r.range(0.0, 6.3));
            let k = if r.chance(0.5) { r.sign() * r.logrange(0.01, 1.0) } else { 0.0 };
            ([a.x, a.y, k], [b.x, b.y, 0.0])
        }
        Style::Grid => loop {
            let a = (r.int(-3, 3), r.int(-3, 3));
            let b = (r.int(-3, 3), r.int(-3, 3));
            if a == b {
                continue;
            }
            let k = if r.chance(0.5) { r.sign() * r.pick(&[1.0, 1.0, Q_, 0.5, 0.2]) } else { 0.0 };
            return ([a.0 as f64, a.1 as f64, k], [b.0 as f64, b.1 as f64, 0.0]);
        },
    }
}
const Q_: f64 = 0.41421356237309503;

fn points(x: &PlineSegIntr<f64>) -> (Vec<P>, bool, bool) {
    match *x {
        PlineSegIntr::NoIntersect => (vec![], false, false),
        PlineSegIntr::TangentIntersect { point } => (vec![pt(point)], true, false),
        PlineSegIntr::OneIntersect { point } => (vec![pt(point)], false, false),
        PlineSegIntr::TwoIntersects { point1, point2 } => (vec![pt(point1), pt(point2)], false, false),
        PlineSegIntr::OverlappingLines { point1, point2 } | PlineSegIntr::OverlappingArcs { point1, point2 } => (vec![pt(point1), pt(point2)], false, true),
    }
}
fn seg_text(a: &(V, V), b: &(V, V)) -> String {
    format!("{:?} {:?} x {:?} {:?}", a.0, a.1, b.0, b.1)
}
fn rseg(a: &(V, V)) -> (V, V) {
    ([a.1[0], a.1[1], -a.0[2]], [a.0[0], a.0[1], 0.0])
}

fn c11_seg_general(c: &mut Case) -> R {
    let (a, b, k) = loop {
        let r = &mut c.rng;
        let (a, b) = (rnd_seg(r, Style::General), rnd_seg(r, Style::General));
        let (s, t) = (Seg::new(a.0, a.1), Seg::new(b.0, b.1));
        if !pair_general(&s, &t, 2e-3, 0.02) {
            continue;
        }
        if seg_isect(&s, &t, 0.0).pts.is_empty() && r.chance(0.7) {
            continue;
        }
        let k = r.logrange(0.5, 100.0);
        let rot = r.range(0.0, 6.3);
        let (tx, ty) = (r.range(-9.0, 9.0) * k, r.range(-9.0, 9.0) * k);
        let f = |q: &(V, V)| {
            let v = transform(&[q.0, q.1], k, rot, tx, ty);
            (v[0], v[1])
        };
        break (f(&a), f(&b), k);
    };
    c.input(seg_text(&a, &b));
    for (x, y) in [(a, b), (b, a), (rseg(&a), b), (a, rseg(&b)), (rseg(&b), rseg(&a))] {
        let (s, t) = (Seg::new(x.0, x.1), Seg::new(y.0, y.1));
        let mut want = seg_isect(&s, &t, 0.0).pts;
        want.sort_by(|u, w| t.closest(*u).0.total_cmp(&t.closest(*w).0));
        if !want.is_empty() {
            c.nontrivial();
        }
        let got = pline_seg_intr(vv(x.0), vv(x.1), vv(y.0), vv(y.1), 1e-5);
        let (g, _, over) = points(&got);
        ensure!(!over, "segment-kind", "{got:?} for segments that do not overlap");
        ensure!(g.len() == want.len(), "segment-kind", "{got:?}, expected {} intersects {:?}", want.len(), want);
        ensure!(!matches!(got, PlineSegIntr::TangentIntersect { .. }), "segment-kind", "{got:?}: not tangent");
        for (u, w) in g.iter().zip(&want) {
            let d = u.dist(*w);
            ensure!(d < 1e-6 * (1.0 + k) * 10.0, "segment-point", "{got:?}: intersect is {d:e} away from {w:?} (order along the second segment counts)");
        }
        c.ev("segment_pairs", 1);
        c.ev("segment_points", g.len() as u64);
    }
    Ok(())
}

fn c11_seg_grid(c: &mut Case) -> R {
    let (a, b) = {
        let r = &mut c.rng;
        let a = rnd_seg(r, Style::Grid);
        let b = match r.below(5) {
            0 => (a.0, a.1),
            1 => {
                // stretch of the same carrier
                let s = Seg::new(a.0, a.1);
                let (u, w) = (r.pick(&[0.0, 0.25, 0.5, -0.5, -1.0, 1.0]), r.pick(&[0.5, 1.0, 0.75, 1.5, 2.0]));
                if w <= u {
                    rnd_seg(r, Style::Grid)
                } else {
                    match s {
                        Seg::L { a: q, b: z } => {
                            let (x, y) = (q + (z - q) * u, q + (z - q) * w);
                            ([x.x, x.y, 0.0], [y.x, y.y, 0.0])
                        }
                        Seg::A { c: ce, r: rad, a0, sw, .. } => {
                            let w = if (w - u) * sw.abs() > std::f64::consts::PI { u + std::f64::consts::PI / sw.abs() } else { w };
                            let (x, y) = (polar(ce, rad, a0 + sw * u), polar(ce, rad, a0 + sw * w));
                            ([x.x, x.y, (sw * (w - u) / 4.0).tan()], [y.x, y.y, 0.0])
                        }
                    }
                }
            }
            2 => {
                // starts at an end of the first
                let z = rnd_seg(r, Style::Grid);
                let (dx, dy) = (a.1[0] - z.0[0], a.1[1] - z.0[1]);
                ([a.1[0], a.1[1], z.0[2]], [z.1[0] + dx, z.1[1] + dy, 0.0])
            }
            _ => rnd_seg(r, Style::Grid),
        };
        let b = if r.chance(0.5) { rseg(&b) } else { b };
        if r.chance(0.3) {
            let rot = r.range(0.0, 6.3);
            let (tx, ty, k) = (r.range(-9.0, 9.0), r.range(-9.0, 9.0), r.logrange(0.5, 20.0));
            let f = |q: &(V, V)| {
                let v = transform(&[q.0, q.1], k, rot, tx, ty);
                (v[0], v[1])
            };
            (f(&a), f(&b))
        } else {
            (a, b)
        }
    };
    c.input(seg_text(&a, &b));
    let one = |x: &(V, V)| Path::new(vec![x.0, x.1], false);
    if !grid_clear(&one(&a), &one(&b), 1.0) {
        c.skip();
        return Ok(());
    }
    for (x, y) in [(a, b), (b, a), (rseg(&a), b), (a, rseg(&b))] {
        let (s, t) = (Seg::new(x.0, x.1), Seg::new(y.0, y.1));
        let got = pline_seg_intr(vv(x.0), vv(x.1), vv(y.0), vv(y.1), 1e-5);
        let (g, _, over) = points(&got);
        c.ev("segment_pairs", 1);
        let tol = 5e-5;
        for q in &g {
            let (d, e) = (s.dist(*q), t.dist(*q));
            ensure!(d < tol && e < tol, "segment-point", "{got:?}: point {q:?} is {d:e} / {e:e} away from the segments");
        }
        let same = same_carrier(&s, &t, 1e-9 * 20.0);
        let inner = same
            && (params(11).any(|f| {
                let (u, d) = t.closest(s.at(f));
                d < 1e-7 && u > 1e-3 && u < 1.0 - 1e-3
            }) || params(11).any(|f| {
                let (u, d) = s.closest(t.at(f));
                d < 1e-7 && u > 1e-3 && u < 1.0 - 1e-3
            }));
        if inner {
            ensure!(over, "segment-kind", "{got:?} for overlapping segments");
            match got {
                PlineSegIntr::OverlappingLines { .. } => ensure!(!s.is_arc(), "segment-kind", "{got:?} for arcs"),
                _ => ensure!(s.is_arc(), "segment-kind", "{got:?} for lines"),
            }
            let (t1, t2) = (t.closest(g[0]).0, t.closest(g[1]).0);
            ensure!(t1 < t2, "overlap-order", "{got:?} is not ordered along the second segment");
            for f in params(9) {
                let u = t1 + (t2 - t1) * f;
                ensure!(s.dist(t.at(u)) < tol, "unsound-overlap", "{got:?}: parameter {u} of the second segment is not on the first");
            }
            for f in params(29) {
                let (u, d) = t.closest(s.at(f));
                if d < 1e-7 {
                    ensure!(u >= t1 - 1e-5 && u <= t2 + 1e-5, "missing-overlap", "{got:?}: parameter {u} of the second segment overlaps too");
                }
            }
            c.ev("overlaps", 1);
            c.nontrivial();
            continue;
        }
        ensure!(!over, "segment-kind", "{got:?} for segments that do not overlap");
        let ct = contacts(&s, &t, 1e-9 * 20.0);
        let mut distinct: Vec<P> = vec![];
        for q in ct {
            if !distinct.iter().any(|z| z.dist(q) < 2e-4) {
                distinct.push(q);
            }
        }
        ensure!(g.len() == distinct.len(), "segment-kind", "{got:?}: expected contacts {distinct:?}");
        for q in &distinct {
            ensure!(g.iter().any(|z| z.dist(*q) < tol), "missing-intersect", "{got:?}: contact {q:?} is missing");
            c.ev("contacts_checked", 1);
            c.nontrivial();
        }
        if g.len() == 2 {
            let (t1, t2) = (t.closest(g[0]).0, t.closest(g[1]).0);
            ensure!(t1 < t2, "intersect-order", "{got:?} is not ordered along the second segment ({t1} then {t2})");
        }
    }
    Ok(())
}

fn lerp(a: P, b: P, t: f64) -> P {
    a + (b - a) * t
}

fn c11_line_line(c: &mut Case) -> R {
    let r = &mut c.rng;
    let kind = r.below(7);
    let rp = |r: &mut Rng| p(r.range(-9.0, 9.0), r.range(-9.0, 9.0));
    let (a, b) = (rp(r), rp(r));
    let l = a.dist(b);
    if l < 0.2 {
        c.skip();
        return Ok(());
    }
    let u = (b - a).unit();
    let (q, z) = match kind {
        0 | 1 => (rp(r), rp(r)),
        2 => {
            // parallel, apart
            let off = u.left() * (r.sign() * r.range(0.01, 3.0));
            let (s, t) = (r.range(-2.0, 2.0), r.range(-2.0, 2.0));
            (lerp(a, b, s) + off, lerp(a, b, t) + off)
        }
        3 => {
            let (s, t) = (r.range(-2.0, 3.0), r.range(-2.0, 3.0));
            (lerp(a, b, s), lerp(a, b, t))
        }
        4 => {
            // end point contacts on the same line
            let s = r.pick(&[0.0, 1.0]);
            (lerp(a, b, s), lerp(a, b, if s == 0.0 { r.range(-2.0, -0.1) } else { r.range(1.1, 3.0) }))
        }
        5 => {
            // T contact
            let t = r.f();
            (lerp(a, b, t), rp(r))
        }
        _ => {
            let q = match r.below(4) {
                0 => lerp(a, b, r.f()),
                1 => lerp(a, b, r.range(-2.0, 3.0)),
                2 => r.pick(&[a, b]),
                _ => rp(r),
            };
            (q, q) // a point
        }
    };
    let (point_first, both_points) = (r.chance(0.5), r.chance(0.15));
    c.input(format!("lines {a:?} {b:?} x {q:?} {z:?}"));
    let m = q.dist(z);
    if kind != 6 && m < 0.2 {
        c.skip();
        return Ok(());
    }
    if kind == 6 {
        let b = if both_points { a } else { b };
        let d = if both_points { a.dist(q) } else { Seg::L { a, b }.dist(q) };
        if d > 1e-9 && d < 1e-2 {
            c.skip();
            return Ok(());
        }
        let mut got = if point_first {
            line_line_intr(v2(q), v2(z), v2(a), v2(b), 1e-5)
        } else {
            line_line_intr(v2(a), v2(b), v2(q), v2(z), 1e-5)
        };
        c.ev("degenerate_lines", 1);
        if let (true, LineLineIntr::TrueIntersect { seg1_t, seg2_t }) = (point_first, got) {
            got = LineLineIntr::TrueIntersect { seg1_t: seg2_t, seg2_t: seg1_t };
        }
        match got {
            LineLineIntr::TrueIntersect { seg1_t, .. } => {
                ensure!(d < 1e-9, "line-kind", "{got:?}: the point is {d:e} away from the line segment");
                let e = lerp(a, b, seg1_t).dist(q);
                ensure!(e < 1e-5, "line-point", "{got:?}: first parameter is {e:e} away from the point");
            }
            _ => ensure!(d > 1e-9, "line-kind", "{got:?}: the point lies on the line segment"),
        }
        c.nontrivial();
        return Ok(());
    }
    let got = line_line_intr(v2(a), v2(b), v2(q), v2(z), 1e-5);
    c.ev("line_pairs", 1);
    let w = (z - q).unit();
    let sn = u.cross(w).abs();
    let dist_off = u.cross(q - a).abs().max(u.cross(z - a).abs());
    if sn < 1e-9 || dist_off < 1e-9 {
        // parallel
        if dist_off > 1e-9 {
            ensure!(matches!(got, LineLineIntr::NoIntersect), "line-kind", "{got:?}: parallel, {dist_off:e} apart");
            c.nontrivial();
            return Ok(());
        }
        // parameters of the first segment's end points on the second
        let f = |x: P| (x - q).dot(w) / m;
        let (lo, hi) = (f(a).min(f(b)), f(a).max(f(b)));
        let (o0, o1) = (lo.max(0.0), hi.min(1.0));
        let len = (o1 - o0) * m;
        if len > 1e-3 {
            let LineLineIntr::Overlapping { seg2_t0, seg2_t1 } = got else {
                return fail("line-kind", format!("{got:?}: collinear, overlapping by {len:e}"));
            };
            ensure!((seg2_t0 - o0).abs() * m < 1e-6 && (seg2_t1 - o1).abs() * m < 1e-6, "line-overlap", "{got:?}: overlap is {o0} to {o1}");
            c.ev("collinear_overlaps", 1);
        } else if len.abs() < 1e-9 {
            let LineLineIntr::TrueIntersect { seg1_t, seg2_t } = got else {
                return fail("line-kind", format!("{got:?}: collinear, touching end to end"));
            };
            let e = lerp(a, b, seg1_t).dist(lerp(q, z, seg2_t));
            ensure!(e < 2e-5, "line-point", "{got:?}: the two parameters are {e:e} apart");
            let near = [a, b].iter().map(|x| x.dist(lerp(q, z, seg2_t))).fold(f64::MAX, f64::min);
            ensure!(near < 2e-5, "line-point", "{got:?}: not at the shared end point");
            c.ev("collinear_touches", 1);
        } else if len < -1e-3 {
            let clear = match got {
                LineLineIntr::NoIntersect | LineLineIntr::FalseIntersect { .. } => true,
                LineLineIntr::Overlapping { seg2_t0, seg2_t1 } => seg2_t1 < 0.0 || seg2_t0 > 1.0,
                _ => false,
            };
            ensure!(clear, "line-kind", "{got:?}: collinear but {:e} apart", -len);
            c.ev("collinear_apart", 1);
        }
        c.nontrivial();
        return Ok(());
    }
    if sn < 0.01 {
        c.skip();
        return Ok(());
    }
    let den = u.cross(w);
    let x = a + u * ((q - a).cross(w) / den);
    let (t1, t2) = ((x - a).dot(u) / l, (x - q).dot(w) / m);
    // distance outside the segments (negative: inside by that much)
    let out = |t: f64, l: f64| (-t * l).max((t - 1.0) * l);
    let o = out(t1, l).max(out(t2, m));
    c.nontrivial();
    match got {
        LineLineIntr::TrueIntersect { seg1_t, seg2_t } => {
            ensure!(o < 2e-5, "line-kind", "{got:?}: the lines meet {o:e} outside of the segments");
            let e = lerp(a, b, seg1_t).dist(x).max(lerp(q, z, seg2_t).dist(x));
            ensure!(e < 1e-6, "line-point", "{got:?}: {e:e} away from the crossing {x:?}");
            c.ev("true_intersects", 1);
        }
        LineLineIntr::FalseIntersect { seg1_t, seg2_t } => {
            ensure!(o > 5e-6, "line-kind", "{got:?}: the segments do meet ({:e} inside)", -o);
            let e = (seg1_t - t1).abs().max((seg2_t - t2).abs());
            ensure!(e < 1e-6 * (1.0 + t1.abs().max(t2.abs())), "line-point", "{got:?}: parameters must be {t1} {t2}");
            c.ev("false_intersects", 1);
        }
        _ => return fail("line-kind", format!("{got:?}: the lines cross at {x:?}")),
    }
    Ok(())
}

fn c11_line_circle(c: &mut Case) -> R {
    let r = &mut c.rng;
    let ce = p(r.range(-9.0, 9.0), r.range(-9.0, 9.0));
    let rad = r.logrange(0.1, 20.0);
    let tangent = r.chance(0.2);
    let axis = r.chance(0.3);
    let th = if axis { r.below(4) as f64 * std::f64::consts::FRAC_PI_2 } else { r.range(0.0, 6.3) };
    let h = if tangent { rad } else { rad * r.range(0.0, 1.6) };
    let n = polar(p(0.0, 0.0), 1.0, th);
    let foot = ce + n * h;
    let (s, t) = (r.range(-2.0, 2.0) * rad, r.range(-2.0, 2.0) * rad);
    let (a, b) = (foot + n.left() * s, foot + n.left() * t);
    if r.chance(0.08) {
        // a line segment that is one point
        let q = match r.below(3) {
            0 => a,
            1 => polar(ce, rad, r.range(0.0, 6.3)),
            _ => ce + n * (rad * r.range(0.0, 2.0)),
        };
        c.input(format!("point {q:?} x circle {ce:?} {rad:?}"));
        let got = line_circle_intr(v2(q), v2(q), rad, v2(ce), 1e-5);
        let d = (q.dist(ce) - rad).abs();
        if d > 1e-9 && d < 1e-2 {
            c.skip();
            return Ok(());
        }
        c.nontrivial();
        c.ev("degenerate_lines", 1);
        if d <= 1e-9 {
            ensure!(matches!(got, LineCircleIntr::TangentIntersect { t0 } if t0 == 0.0), "circle-kind", "{got:?}: the point is on the circle");
        } else {
            ensure!(matches!(got, LineCircleIntr::NoIntersect), "circle-kind", "{got:?}: the point is {d:e} off the circle");
        }
        return Ok(());
    }
    if r.chance(0.06) {
        // short line, often almost parallel to an axis, far from the points where it meets the circle
        let l = r.logrange(1e-4, 0.5);
        let lean = if r.chance(0.8) { r.sign() * r.logrange(1e-13, 1e-5) } else { r.range(-1.0, 1.0) * l };
        let u = if r.chance(0.5) { p(lean, r.sign() * l) } else { p(r.sign() * l, lean) };
        let a = ce + p(r.range(-0.6, 0.6), r.range(-0.6, 0.6)) * rad;
        let b = a + u;
        c.input(format!("short line {a:?} {b:?} x circle {ce:?} {rad:?}"));
        c.nontrivial();
        c.ev("short_lines", 1);
        match line_circle_intr(v2(a), v2(b), rad, v2(ce), 1e-5) {
            LineCircleIntr::TwoIntersects { t0, t1 } => {
                ensure!(t0 < t1, "circle-order", "t {t0:?} and {t1:?}");
                for t in [t0, t1] {
                    let q = a + (b - a) * t;
                    let d = (q.dist(ce) - rad).abs();
                    ensure!(d < 1e-6 * (1.0 + rad), "circle-point", "t {t:?} gives {q:?}, {d:e} off the circle");
                }
            }
            got => return fail("circle-kind", format!("{got:?}: the line crosses the circle twice")),
        }
        return Ok(());
    }
    c.input(format!("line {a:?} {b:?} x circle {ce:?} {rad:?}"));
    let l = a.dist(b);
    if l < 0.2 * rad || l < 0.05 {
        c.skip();
        return Ok(());
    }
    let gap = (h - rad).abs();
    if !tangent && gap < 1e-3 * rad.max(1.0) {
        c.skip();
        return Ok(());
    }
    c.nontrivial();
    let got = line_circle_intr(v2(a), v2(b), rad, v2(ce), 1e-5);
    c.ev("line_circles", 1);
    let tol = 1e-6 * (1.0 + rad);
    let u = (b - a).unit();
    let par = |q: P| (q - a).dot(u) / l;
    if tangent {
        match got {
            LineCircleIntr::TangentIntersect { t0 } => {
                ensure!(lerp(a, b, t0).dist(foot) < tol, "circle-point", "{got:?}: tangent point is {foot:?}");
                c.ev("tangents", 1);
            }
            _ => return fail("circle-kind", format!("{got:?}: the line is tangent")),
        }
    } else if h > rad {
        ensure!(matches!(got, LineCircleIntr::NoIntersect), "circle-kind", "{got:?}: the line passes {gap:e} outside");
    } else {
        let k = ((rad - h) * (rad + h)).sqrt();
        let (w0, w1) = (par(foot - u * k), par(foot + u * k));
        match got {
            LineCircleIntr::TwoIntersects { t0, t1 } => {
                let e = ((t0 - w0).abs()).max((t1 - w1).abs()) * l;
                ensure!(e < 1e-5 * (1.0 + rad), "circle-point", "{got:?}: parameters must be {w0} and {w1}");
                c.ev("two_intersects", 1);
            }
            _ => return fail("circle-kind", format!("{got:?}: the line crosses at {w0} and {w1}")),
        }
    }
    Ok(())
}

fn c11_circle_circle(c: &mut Case) -> R {
    let r = &mut c.rng;
    let c1 = p(r.range(-9.0, 9.0), r.range(-9.0, 9.0));
    let r1 = r.logrange(0.1, 20.0);
    let kind = r.below(7);
    let r2 = if kind == 6 { r1 } else { r.logrange(0.1, 20.0) };
    let th = if r.chance(0.3) { r.below(4) as f64 * std::f64::consts::FRAC_PI_2 } else { r.range(0.0, 6.3) };
    let (lo, hi) = ((r1 - r2).abs(), r1 + r2);
    let d = match kind {
        0 => hi,
        1 => lo,
        2 => hi * r.range(1.0, 2.0),
        3 => lo * r.f(),
        4 | 5 => lo + (hi - lo) * r.range(0.02, 0.98),
        _ => 0.0,
    };
    let c2 = polar(c1, d, th);
    c.input(format!("circles {c1:?} {r1:?} x {c2:?} {r2:?}"));
    let got = circle_circle_intr(r1, v2(c1), r2, v2(c2), 1e-5);
    let mg = 1e-3 * (1.0 + r1.max(r2));
    c.ev("circle_pairs", 1);
    match kind {
        6 => {
            ensure!(matches!(got, CircleCircleIntr::Overlapping), "circle-kind", "{got:?}: same circle");
        }
        2 | 3 => {
            if (d - hi).abs() < mg || (d - lo).abs() < mg {
                c.skip();
                return Ok(());
            }
            ensure!(matches!(got, CircleCircleIntr::NoIntersect), "circle-kind", "{got:?}: circles are apart or nested");
        }
        0 | 1 => {
            if d < 0.01 {
                c.skip();
                return Ok(());
            }
            // exactly tangent up to rounding: one point or two very close ones
            let u = (c2 - c1).unit();
            let w = if kind == 0 || r1 > r2 { c1 + u * r1 } else { c1 - u * r1 };
            let g: Vec<P> = match got {
                CircleCircleIntr::TangentIntersect { point } => vec![pt(point)],
                CircleCircleIntr::TwoIntersects { point1, point2 } => vec![pt(point1), pt(point2)],
                _ => return fail("circle-kind", format!("{got:?}: circles are tangent at {w:?}")),
            };
            for q in g {
                ensure!(q.dist(w) < 1e-4 * (1.0 + r1.max(r2)), "circle-point", "{got:?}: tangent point is {w:?}");
            }
            c.ev("tangents", 1);
        }
        _ => {
            if (d - hi).abs() < mg || (d - lo).abs() < mg || d < mg {
                c.skip();
                return Ok(());
            }
            let CircleCircleIntr::TwoIntersects { point1, point2 } = got else {
                return fail("circle-kind", format!("{got:?}: circles cross twice"));
            };
            let u = (c2 - c1).unit();
            let x = (d * d + (r1 - r2) * (r1 + r2)) / (2.0 * d);
            let y = ((r1 - x) * (r1 + x)).max(0.0).sqrt();
            let (w1, w2) = (c1 + u * x + u.left() * y, c1 + u * x - u.left() * y);
            let (g1, g2) = (pt(point1), pt(point2));
            let e = (g1.dist(w1).max(g2.dist(w2))).min(g1.dist(w2).max(g2.dist(w1)));
            ensure!(e < 1e-5 * (1.0 + r1.max(r2)), "circle-point", "{got:?}: crossings are {w1:?} and {w2:?}");
            c.ev("two_intersects", 1);
        }
    }
    c.nontrivial();
    Ok(())
}

/// polylines of dozens to hundreds of vertexes
fn c09_large(c: &mut Case) -> R {
    c.rng.big = true;
    if c.rng.chance(0.5) { c09_general(c) } else { c09_grid(c) }
}
fn c10_large(c: &mut Case) -> R {
    c.rng.big = true;
    if c.rng.chance(0.5) { c10_general(c) } else { c10_grid(c) }
}
/// the same drawing in other units, with the tolerance in the same units, has the same intersects
fn unit_scale(r: &mut Rng) -> f64 {
    r.pick(&[1.0 / 4096.0, 1.0 / 256.0, 0.25, 64.0, 1024.0])
}
fn scaled(x: &Path, u: f64) -> PL {
    to_pl(&x.v.iter().map(|q| [q[0] * u, q[1] * u, q[2]]).collect::<Vec<V>>(), x.closed)
}
fn same_list(c: &mut Case, a: &[(Key, P)], b: &[(Key, P)], u: f64, size: f64, what: &str) -> R {
    ensure!(a.len() == b.len(), "units", "{} {what}, {} in units of {u:?} with the tolerance to match", a.len(), b.len());
    let b: Vec<(Key, P)> = b.iter().map(|(k, q)| (*k, p(q.x / u, q.y / u))).collect();
    if !a.is_empty() {
        c.nontrivial();
    }
    c.ev("unit_intersects", a.len() as u64);
    match_sets(&b, a, 1e-5 * size.max(1.0), &format!("{what} in units of {u:?}"))
}
fn unit_paths(c: &mut Case, n: usize) -> (Vec<Path>, f64) {
    let st = if c.rng.chance(0.5) { Style::General } else { Style::Grid };
    let simple = c.rng.chance(0.5);
    let v: Vec<Path> = (0..n).map(|_| any_path(&mut c.rng, st, simple)).collect();
    let u = unit_scale(&mut c.rng);
    c.input(format!("units {u:?} {}", v.iter().map(ptext).collect::<Vec<_>>().join(" ")));
    (v, u)
}
fn c09_units(c: &mut Case) -> R {
    let (v, u) = unit_paths(c, 2);
    let (a, b) = (&v[0], &v[1]);
    let (a1, b1, a2, b2) = (to_pl(&a.v, a.closed), to_pl(&b.v, b.closed), scaled(a, u), scaled(b, u));
    let eps = 1e-5;
    let size = a.diag().max(b.diag());
    let g1 = a1.find_intersects_opt(&b1, &FindIntersectsOptions { pline1_aabb_index: None, pos_equal_eps: eps });
    let g2 = a2.find_intersects_opt(&b2, &FindIntersectsOptions { pline1_aabb_index: None, pos_equal_eps: eps * u });
    same_list(c, &basics(&g1), &basics(&g2), u, size, "intersects")?;
    let ends = |g: &PlineIntersectsCollection<f64>| -> Vec<(Key, P)> {
        g.overlapping_intersects.iter().flat_map(|i| [i.point1, i.point2].map(|q| ((i.start_index1, i.start_index2), pt(q)))).collect()
    };
    same_list(c, &ends(&g1), &ends(&g2), u, size, "ends of overlaps")
}
fn c10_units(c: &mut Case) -> R {
    let (v, u) = unit_paths(c, 1);
    let a = &v[0];
    let eps = 1e-5;
    let run = |x: &PL, eps: f64| {
        let mut l = Log::default();
        x.visit_self_intersects_opt(&mut l, &PlineSelfIntersectOptions { pos_equal_eps: eps, ..Default::default() });
        l.ev
    };
    let (g1, g2) = (run(&to_pl(&a.v, a.closed), eps), run(&scaled(a, u), eps * u));
    let basic = |g: &[(Key, P, Option<P>)]| pairs(&g.iter().filter(|x| x.2.is_none()).cloned().collect::<Vec<_>>());
    let over = |g: &[(Key, P, Option<P>)]| g.iter().filter_map(|x| x.2.map(|q| (x.0, x.1, q))).flat_map(|(k, x, y)| [((k.0.min(k.1), k.0.max(k.1)), x), ((k.0.min(k.1), k.0.max(k.1)), y)]).collect::<Vec<(Key, P)>>();
    same_list(c, &basic(&g1), &basic(&g2), u, a.diag(), "self intersects")?;
    same_list(c, &over(&g1), &over(&g2), u, a.diag(), "ends of self overlaps")
}
fn c09_fine(c: &mut Case) -> R {
    c.rng.fine = true;
    c09_general(c)
}
fn c10_fine(c: &mut Case) -> R {
    c.rng.fine = true;
    c10_general(c)
}
fn main() {
    cavc_monitor::rep::main(vec![
        Property {
            id: "C09",
            rule: "random pair of polylines, open or closed: general position, exact grid coincidences, and ends that stop short by a known gap; non-trivial when they meet; oracle: independent analytic segment intersection",
            classes: vec![
                Class { name: "general", quick: 150000, thorough: 1500000, f: c09_general },
                Class { name: "grid", quick: 150000, thorough: 1500000, f: c09_grid },
                Class { name: "eps", quick: 50000, thorough: 500000, f: c09_eps }, Class { name: "large", quick: 1200, thorough: 60000, f: c09_large },
                Class { name: "fine", quick: 8000, thorough: 30000, f: c09_fine },
                Class { name: "units", quick: 60000, thorough: 300000, f: c09_units },
            ],
            floors: vec![("intersects_compared", 300000), ("ordered_double_crossings", 1000), ("contacts_checked", 100000), ("overlap_points_checked", 50000), ("found_within_eps", 5000), ("unit_intersects", 10000)],
            rates: vec![],
        },
        Property {
            id: "C10",
            rule: "random self crossing or self touching polyline; non-trivial when it meets itself; oracle: independent analytic segment intersection of all pairs",
            classes: vec![
                Class { name: "general", quick: 100000, thorough: 1500000, f: c10_general },
                Class { name: "grid", quick: 150000, thorough: 1500000, f: c10_grid }, Class { name: "large", quick: 8000, thorough: 60000, f: c10_large },
                Class { name: "fine", quick: 10000, thorough: 30000, f: c10_fine },
                Class { name: "units", quick: 60000, thorough: 300000, f: c10_units },
            ],
            floors: vec![("self_intersects_compared", 200000), ("early_stops", 50000), ("contacts_checked", 50000), ("overlaps_checked", 1000), ("unit_intersects", 3000)],
            rates: vec![],
        },
        Property {
            id: "C11",
            rule: "random pair of primitives: general, tangent, collinear, concentric, coincident, end point contacts; non-trivial when they meet or are near a special position; oracle: closed forms",
            classes: vec![
                Class { name: "seg_general", quick: 150000, thorough: 3000000, f: c11_seg_general },
                Class { name: "seg_grid", quick: 300000, thorough: 3000000, f: c11_seg_grid },
                Class { name: "line_line", quick: 300000, thorough: 3000000, f: c11_line_line },
                Class { name: "line_circle", quick: 200000, thorough: 3000000, f: c11_line_circle },
                Class { name: "circle_circle", quick: 200000, thorough: 3000000, f: c11_circle_circle },
            ],
            floors: vec![("segment_points", 30000), ("overlaps", 5000), ("contacts_checked", 50000), ("collinear_overlaps", 5000), ("tangents", 10000), ("short_lines", 3000), ("degenerate_lines", 20000)],
            rates: vec![],
        },
    ])
}
