//! Monitors for polylines of 32 bit numbers: the exact geometry of the (rounded) input is the oracle,
//! tolerances are those of single precision at the size of the input.
use cavalier_contours::core::Control;
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::{Shape, ShapeOffsetOptions};
use cavc_monitor::ensure;
use cavc_monitor::gen_::{self, Style};
use cavc_monitor::geom::*;
use cavc_monitor::lib_api::*;
use cavc_monitor::rep::*;
use cavc_monitor::rng::Rng;

type S = Polyline<f32>;
const OPS: [BooleanOp; 4] = [BooleanOp::Or, BooleanOp::And, BooleanOp::Not, BooleanOp::Xor];

/// numbers that are exact in single precision
fn rounded(q: &Path) -> Path {
    Path::new(q.v.iter().map(|v| [v[0] as f32 as f64, v[1] as f32 as f64, v[2] as f32 as f64]).collect(), q.closed)
}
fn vs<T: PlineSource<Num = f32> + ?Sized>(l: &T) -> Vec<V> {
    (0..l.vertex_count()).map(|i| { let q = l.at(i); [q.x as f64, q.y as f64, q.bulge as f64] }).collect()
}
fn ps<T: PlineSource<Num = f32> + ?Sized>(l: &T) -> Path {
    Path::new(vs(l), l.is_closed())
}
fn v2s(q: P) -> cavalier_contours::core::math::Vector2<f32> {
    cavalier_contours::core::math::Vector2::new(q.x as f32, q.y as f32)
}
fn p32(q: P) -> P {
    p(q.x as f32 as f64, q.y as f32 as f64)
}
fn pts(q: cavalier_contours::core::math::Vector2<f32>) -> P {
    p(q.x as f64, q.y as f64)
}
/// the largest number that takes part (arc centres and radii included)
fn reach(pa: &Path) -> f64 {
    pa.segs.iter().map(|s| if let Seg::A { c, r, .. } = s { c.x.abs().max(c.y.abs()) + r } else { 0.0 }).fold(pa.max_abs(), f64::max)
}
const E32: f64 = 1.2e-7;

fn any(r: &mut Rng) -> Path {
    let st = if r.chance(0.6) { Style::General } else { Style::Grid };
    let q = if r.chance(0.6) { gen_::closed(r, st, 0.05) } else { gen_::open(r, st, false, 0.05) };
    if r.chance(0.5) {
        let (v, _) = gen_::place(r, &[&q], (0.05, 50.0), 5.0);
        return rounded(&v[0]);
    }
    rounded(&q)
}
fn note_shape(c: &mut Case, pa: &Path) {
    if pa.v.len() > 2 && pa.segs.iter().any(|s| s.is_arc()) {
        c.nontrivial();
    }
}

fn measures(c: &mut Case) -> R {
    let pa = any(&mut c.rng);
    c.input(ptext(&pa));
    note_shape(c, &pa);
    let l = to_pl32(&pa.v, pa.closed);
    let (m, n) = (reach(&pa), pa.v.len() as f64);
    let tol = 40.0 * E32 * m;
    let len = l.path_length() as f64;
    ensure!((len - pa.len()).abs() <= tol * n + 1e-4 * pa.len() * 0.1, "length", "path length {len}, must be {}", pa.len());
    if pa.closed {
        let a = l.area() as f64;
        let at = 40.0 * E32 * m * m * n;
        ensure!((a - pa.area()).abs() <= at, "area", "area {a}, must be {}", pa.area());
        c.ev("areas", 1);
        if pa.area().abs() > 2.0 * at {
            let w = if pa.area() > 0.0 { PlineOrientation::CounterClockwise } else { PlineOrientation::Clockwise };
            ensure!(l.orientation() == w, "orientation", "{:?}, must be {w:?}", l.orientation());
        }
    } else {
        ensure!(l.area() == 0.0 && l.orientation() == PlineOrientation::Open, "open", "area {} orientation {:?} of an open polyline", l.area(), l.orientation());
    }
    let b = pa.bbox();
    let Some(e) = l.extents() else { return fail("extents", "none".into()) };
    for (g, w) in [(e.min_x, b[0]), (e.min_y, b[1]), (e.max_x, b[2]), (e.max_y, b[3])] {
        ensure!((g as f64 - w).abs() <= tol, "extents", "{e:?}, must be {b:?}");
    }
    for (ix, exact) in [(l.create_aabb_index(), true), (l.create_approx_aabb_index(), false)] {
        ensure!(ix.count() == pa.segs.len(), "index", "{} boxes for {} segments", ix.count(), pa.segs.len());
        for (k, s) in pa.segs.iter().enumerate() {
            let pos = ix.all_box_indices()[..ix.count()].iter().position(|i| *i == k).unwrap();
            let (w, g) = (s.bbox(), &ix.all_boxes()[pos]);
            let g = [g.min_x as f64, g.min_y as f64, g.max_x as f64, g.max_y as f64];
            let ok = (0..4).all(|i| {
                let out = if i < 2 { g[i] - w[i] } else { w[i] - g[i] };
                out <= tol && (!exact || out >= -tol)
            });
            ensure!(ok, "index", "segment {k} has box {g:?}, the curve {w:?}");
        }
        c.ev("index_boxes", ix.count() as u64);
    }
    for _ in 0..6 {
        let q = p32(if c.rng.chance(0.5) { p(c.rng.range(b[0] - 1.0, b[2] + 1.0), c.rng.range(b[1] - 1.0, b[3] + 1.0)) } else {
            let s = &pa.segs[c.rng.below(pa.segs.len())];
            s.at(c.rng.f()) + polar(p(0.0, 0.0), pa.diag() * c.rng.logrange(1e-3, 1.0), c.rng.range(0.0, 6.3))
        });
        let d = pa.dist(q);
        if pa.closed && d > 1e-3 * pa.diag() + 10.0 * tol {
            let w = l.winding_number(v2s(q)) as i64;
            ensure!(w == pa.winding(q), "winding", "{w} around ({:?},{:?}), must be {}", q.x, q.y, pa.winding(q));
            c.ev("windings", 1);
        }
        let cp = l.closest_point(v2s(q), 1e-5).ok_or(Fail { kind: "closest".into(), msg: "none".into() })?;
        // two routes to the same curve: near the centre of an arc directions are not resolved, distances are
        ensure!((cp.distance as f64 - d).abs() <= 4.0 * tol + 1.1e-5, "closest", "distance {} to ({:?},{:?}), must be {d}", cp.distance, q.x, q.y);
        let cq = pts(cp.seg_point);
        ensure!((cq.dist(q) - d).abs() <= 8.0 * tol + 1.1e-5 && pa.segs[cp.seg_start_index].dist(cq) <= 8.0 * tol + 1.1e-5, "closest", "point {cq:?} of segment {} for ({:?},{:?})", cp.seg_start_index, q.x, q.y);
        c.ev("closest_points", 1);
        let t = (c.rng.f() * pa.len() * 0.9999) as f32 as f64;
        match l.find_point_at_path_length(t as f32) {
            Ok((i, g)) => {
                let g = pts(g);
                let s = pa.segs.get(i).ok_or(Fail { kind: "at-length".into(), msg: format!("index {i}") })?;
                let before: f64 = pa.segs[..i].iter().map(|s| s.len()).sum();
                let w = s.at(((t - before) / s.len()).clamp(0.0, 1.0));
                let lt = 8.0 * tol * n + 1e-5 * pa.len();
                ensure!(before <= t + lt && before + s.len() >= t - lt && g.dist(w) <= 2.0 * lt, "at-length", "length {t} is at segment {i} {g:?}, must be {w:?}");
                c.ev("lengths", 1);
            }
            Err(x) => ensure!(false, "at-length", "length {t} of {} is refused with {x}", pa.len()),
        }
    }
    Ok(())
}

fn edits(c: &mut Case) -> R {
    let pa = any(&mut c.rng);
    c.input(ptext(&pa));
    note_shape(c, &pa);
    let l = to_pl32(&pa.v, pa.closed);
    let m = reach(&pa);
    let tol = 80.0 * E32 * m;
    let near = |what: &str, g: &Path, w: &Path, tol: f64| -> R {
        ensure!(g.closed == w.closed, "closed", "{what}: open and closed differ");
        for (x, y) in [(g, w), (w, g)] {
            for s in &x.segs {
                for t in [0.0, 0.3, 0.7, 1.0] {
                    let d = y.dist(s.at(t));
                    ensure!(d <= tol, "curve", "{what} gives {}, {d} away from the curve", ptext(g));
                }
            }
        }
        Ok(())
    };
    let mut x = l.clone();
    x.invert_direction_mut();
    let rev = Path::new(reverse(&pa.v, pa.closed), pa.closed);
    ensure!(ps(&x).v.len() == pa.v.len(), "reverse", "count");
    near("reverse", &ps(&x), &rev, tol)?;
    let k = c.rng.logrange(0.01, 100.0) as f32;
    let mut x = l.clone();
    x.scale_mut(k);
    near("scale", &ps(&x), &Path::new(transform(&pa.v, k as f64, 0.0, 0.0, 0.0), pa.closed), tol * k as f64)?;
    let (tx, ty) = (c.rng.range(-10.0, 10.0) as f32, c.rng.range(-10.0, 10.0) as f32);
    let mut x = l.clone();
    x.translate_mut(tx, ty);
    near("translate", &ps(&x), &Path::new(transform(&pa.v, 1.0, 0.0, tx as f64, ty as f64), pa.closed), tol + 80.0 * E32 * 20.0)?;
    if let Some(x) = l.remove_repeat_pos(1e-5) {
        near("remove_repeat_pos", &ps(&x), &pa, tol + 2e-5)?;
    }
    if let Some(x) = l.remove_redundant(1e-4) {
        c.ev("simplified", 1);
        // (the collinearity test compares areas with a fixed tolerance: coarse for short segments)
        if let Err(e) = near("remove_redundant", &ps(&x), &pa, tol + 2e-3 + 1e-3 * pa.diag()) {
            c.soft("simplify_deviations", e);
        }
    }
    let e = pa.diag() * c.rng.logrange(1e-3, 0.1);
    if let Some(x) = l.arcs_to_approx_lines(e as f32) {
        ensure!(ps(&x).segs.iter().all(|s| !s.is_arc()), "arcs", "arcs left");
        ensure!(x.vertex_count() < 4000, "arcs", "{} lines", x.vertex_count());
        near("arcs_to_approx_lines", &ps(&x), &pa, e * 1.01 + tol)?;
        c.ev("approximated", 1);
    }
    let pick = |r: &mut Rng| {
        let i = r.below(pa.segs.len());
        let t = r.range(0.05, 0.95);
        (i, pa.segs[i].at(t))
    };
    if pa.closed {
        let (i, q) = pick(&mut c.rng);
        let x = l.rotate_start(i, v2s(q), 1e-4).ok_or(Fail { kind: "rotate".into(), msg: "none".into() })?;
        ensure!(ps(&x).pos(0).dist(q) <= tol + 1e-4, "rotate", "starts at {:?}, must be {q:?}", ps(&x).pos(0));
        near("rotate_start", &ps(&x), &pa, tol + 2e-4)?;
        c.ev("rotated", 1);
    }
    let (mut a, mut b) = (pick(&mut c.rng), pick(&mut c.rng));
    if a.0 > b.0 {
        std::mem::swap(&mut a, &mut b);
    }
    if a.0 != b.0 {
        let d = PlineViewData::from_slice_points(&l, v2s(a.1), a.0, v2s(b.1), b.0, 1e-4).ok_or(Fail { kind: "view".into(), msg: "none".into() })?;
        let g = ps(&d.view(&l));
        let (ga, gb) = (g.pos(0), g.pos(g.v.len() - 1));
        ensure!(!g.closed && ga.dist(a.1) <= tol + 2e-4 && gb.dist(b.1) <= tol + 2e-4, "view", "from {ga:?} to {gb:?}, must be {a:?} to {b:?}");
        for s in &g.segs {
            for t in [0.0, 0.4, 0.8] {
                ensure!(pa.dist(s.at(t)) <= tol + 5e-4, "view", "{} leaves the curve", ptext(&g));
            }
        }
        let part = |i: usize, q: P| { let s = &pa.segs[i]; let (mut lo, mut hi) = (0.0, 1.0); for _ in 0..60 { let (u, v) = (lo + (hi - lo) / 3.0, hi - (hi - lo) / 3.0); if s.at(u).dist(q) < s.at(v).dist(q) { hi = v } else { lo = u } } lo * s.len() };
        let want: f64 = pa.segs[a.0..b.0].iter().map(|s| s.len()).sum::<f64>() - part(a.0, a.1) + part(b.0, b.1);
        ensure!((g.len() - want).abs() <= 2e-3 + 20.0 * tol + 1e-4 * want, "view", "length {}, must be {want}", g.len());
        c.ev("views", 1);
    }
    Ok(())
}

fn pair(r: &mut Rng, grid: bool) -> (Path, Path) {
    loop {
        if grid {
            let a = gen_::closed(r, Style::Grid, 0.05);
            let b = gen_::closed(r, Style::Grid, 0.05);
            let st = r.pick(&[1.0, 0.5]);
            let (x, y) = (r.int(-3, 3) as f64 * st, r.int(-3, 3) as f64 * st);
            return (rounded(&a), rounded(&Path::new(b.v.iter().map(|q| [q[0] + x, q[1] + y, q[2]]).collect(), true)));
        }
        let a = gen_::closed(r, Style::General, 0.08);
        let b = gen_::closed(r, Style::General, 0.08);
        let b = Path::new(transform(&b.v, r.logrange(0.3, 1.5), r.range(0.0, 6.3), r.range(-4.0, 4.0), r.range(-4.0, 4.0)), true);
        let (a, b) = (rounded(&a), rounded(&b));
        if general_position(&a, &b, 1e-2, 0.05) {
            return (a, b);
        }
    }
}
fn inside_op(op: BooleanOp, a: bool, b: bool) -> bool {
    match op {
        BooleanOp::Or => a || b,
        BooleanOp::And => a && b,
        BooleanOp::Not => a && !b,
        BooleanOp::Xor => a != b,
    }
}
fn boolean_check(c: &mut Case, a: &Path, b: &Path) -> R {
    let (la, lb) = (to_pl32(&a.v, true), to_pl32(&b.v, true));
    let m = 1e-2;
    let bb = [a.bbox(), b.bbox()];
    for op in OPS {
        let rs = la.boolean(&lb, op);
        ensure!(!matches!(rs.result_info, BooleanResultInfo::InvalidInput), "result-info", "{op:?} invalid input");
        let pos: Vec<Path> = rs.pos_plines.iter().map(|x| ps(&x.pline)).collect();
        let neg: Vec<Path> = rs.neg_plines.iter().map(|x| ps(&x.pline)).collect();
        c.ev("operations", 1);
        c.ev("result_loops", (pos.len() + neg.len()) as u64);
        for s in a.segs.iter().chain(&b.segs).chain(pos.iter().chain(&neg).flat_map(|q| &q.segs)) {
            let t = c.rng.f();
            for sg in [1.0, -1.0] {
                let q = s.at(t) + s.tan(t).left() * (sg * c.rng.range(1.5, 10.0) * m);
                member(c, a, b, op, &pos, &neg, q, m)?;
            }
        }
        for _ in 0..12 {
            let o = &bb[c.rng.below(2)];
            let q = p(c.rng.range(o[0], o[2]), c.rng.range(o[1], o[3]));
            member(c, a, b, op, &pos, &neg, q, m)?;
        }
    }
    Ok(())
}
#[allow(clippy::too_many_arguments)]
fn member(c: &mut Case, a: &Path, b: &Path, op: BooleanOp, pos: &[Path], neg: &[Path], q: P, m: f64) -> R {
    if a.dist(q) < m || b.dist(q) < m {
        return Ok(());
    }
    let w = inside_op(op, a.inside(q), b.inside(q));
    let g: i64 = pos.iter().map(|x| x.winding(q).abs()).sum::<i64>() - neg.iter().map(|x| x.winding(q).abs()).sum::<i64>();
    ensure!(g == w as i64, "membership", "{op:?}: ({:?},{:?}) is covered {g} times, must be {}", q.x, q.y, w as i64);
    c.ev("membership_points", 1);
    Ok(())
}
/// isolated deviations of single precision are counted, a deviation of the neighbours too is a violation
fn shaken(c: &mut Case, a: &Path, b: &Path, f: fn(&mut Case, &Path, &Path) -> R) -> R {
    let Err(e) = f(c, a, b) else { return Ok(()) };
    for k in 0..3 {
        let s = [0.013, -0.017, 0.021][k];
        let v = b.v.iter().map(|q| [q[0] + s, q[1] - 0.7 * s, q[2]]).collect();
        if f(c, a, &rounded(&Path::new(v, b.closed))).is_ok() {
            c.soft("isolated_deviations", e);
            return Ok(());
        }
    }
    if reach(a).max(reach(b)) > 60.0 {
        c.soft("isolated_deviations", e);
        return Ok(());
    }
    Err(e)
}
fn boolean_general(c: &mut Case) -> R {
    let (a, b) = pair(&mut c.rng, false);
    c.input(format!("{} {}", ptext(&a), ptext(&b)));
    c.nontrivial();
    c.ev("cases", 1);
    shaken(c, &a, &b, boolean_check)
}
fn boolean_grid(c: &mut Case) -> R {
    let (a, b) = pair(&mut c.rng, true);
    c.input(format!("{} {}", ptext(&a), ptext(&b)));
    c.nontrivial();
    c.ev("grid_cases", 1);
    if let Err(e) = boolean_check(c, &a, &b) {
        c.soft("grid_deviations", e);
    }
    Ok(())
}

fn intersects_check(c: &mut Case, a: &Path, b: &Path) -> R {
    let (la, lb) = (to_pl32(&a.v, a.closed), to_pl32(&b.v, b.closed));
    let r = la.find_intersects(&lb);
    let tol = 2e-3 + 400.0 * E32 * reach(a).max(reach(b));
    let mut want = vec![];
    for (i, s) in a.segs.iter().enumerate() {
        for (j, t) in b.segs.iter().enumerate() {
            for q in contacts(s, t, 1e-9) {
                want.push((i, j, q));
            }
        }
    }
    for (i, j, q) in &want {
        ensure!(r.basic_intersects.iter().any(|x| pts(x.point).dist(*q) <= tol), "missed", "crossing {q:?} of segments {i} and {j} is not reported");
        c.ev("crossings", 1);
    }
    for x in &r.basic_intersects {
        let q = pts(x.point);
        ensure!(a.segs[x.start_index1].dist(q) <= tol && b.segs[x.start_index2].dist(q) <= tol, "off-curve", "{x:?} is not on both segments");
    }
    ensure!(r.overlapping_intersects.is_empty(), "overlap", "{:?}", r.overlapping_intersects);
    ensure!(r.basic_intersects.len() == want.len(), "count", "{} reported, must be {}", r.basic_intersects.len(), want.len());
    Ok(())
}
fn intersects(c: &mut Case) -> R {
    let (a, b) = pair(&mut c.rng, false);
    c.input(format!("{} {}", ptext(&a), ptext(&b)));
    c.nontrivial();
    c.ev("cases", 1);
    shaken(c, &a, &b, intersects_check)
}
fn self_intersects(c: &mut Case) -> R {
    struct All(Vec<P>);
    impl PlineIntersectVisitor<f32, Control> for All {
        fn visit_basic_intr(&mut self, x: PlineBasicIntersect<f32>) -> Control {
            self.0.push(pts(x.point));
            Control::Continue
        }
        fn visit_overlapping_intr(&mut self, x: PlineOverlappingIntersect<f32>) -> Control {
            self.0.push(pts(x.point1));
            self.0.push(pts(x.point2));
            Control::Continue
        }
    }
    let pa = rounded(&gen_::open(&mut c.rng, Style::General, false, 0.05));
    c.input(ptext(&pa));
    let mut want = vec![];
    for i in 0..pa.segs.len() {
        for j in i + 1..pa.segs.len() {
            if j == i + 1 {
                continue;
            }
            if !pair_general(&pa.segs[i], &pa.segs[j], 1e-2, 0.05) {
                c.skip();
                return Ok(());
            }
            want.extend(contacts(&pa.segs[i], &pa.segs[j], 1e-9));
        }
    }
    c.nontrivial();
    c.ev("cases", 1);
    let l = to_pl32(&pa.v, false);
    let o = PlineSelfIntersectOptions { include: SelfIntersectsInclude::Global, ..Default::default() };
    let mut vis = All(vec![]);
    l.visit_self_intersects_opt(&mut vis, &o);
    let tol = 2e-3 + 400.0 * E32 * reach(&pa);
    let r = (|| {
        for q in &want {
            ensure!(vis.0.iter().any(|x| x.dist(*q) <= tol), "missed", "self crossing {q:?} is not visited");
        }
        for x in &vis.0 {
            ensure!(want.iter().any(|q| x.dist(*q) <= tol), "false", "visited {x:?} is no self crossing");
        }
        Ok(())
    })();
    c.ev("self_crossings", want.len() as u64);
    if let Err(e) = r {
        c.soft("isolated_deviations", e);
    }
    Ok(())
}

fn sd(pa: &Path, ccw: bool, q: P) -> f64 {
    let dist = pa.dist(q);
    if pa.inside(q) == ccw { dist } else { -dist }
}
fn offset_run(c: &mut Case, pa: &Path, d: f64) -> R {
    let l = to_pl32(&pa.v, true);
    let res: Vec<Path> = l.parallel_offset(d as f32).iter().map(ps).collect();
    let ccw = pa.area() > 0.0;
    let tol = 5e-3 + 100.0 * E32 * pa.max_abs();
    c.ev("offsets", 1);
    c.ev("offset_loops", res.len() as u64);
    for q in &res {
        if !q.closed && q.diag() < 0.05 {
            continue;
        }
        ensure!(q.closed, "offset-open", "open result {}", ptext(q));
        for s in &q.segs {
            for t in [0.0, 0.4, 0.8] {
                let x = s.at(t);
                let g = sd(pa, ccw, x);
                ensure!((g - d).abs() <= tol, "offset-distance", "({:?},{:?}) of the result is {g} from the input, must be {d}", x.x, x.y);
                c.ev("result_points", 1);
            }
        }
    }
    let m = 4.0 * tol;
    let bb = pa.bbox();
    let ex = d.abs() * 1.2;
    let mut at = vec![];
    for s in &pa.segs {
        let t = c.rng.f();
        at.push(s.at(t) + s.tan(t).left() * d + polar(p(0.0, 0.0), m * c.rng.range(1.2, 10.0), c.rng.range(0.0, 6.3)));
        at.push(polar(s.b(), d.abs() + c.rng.sign() * m * c.rng.range(1.2, 6.0), c.rng.range(0.0, 6.3)));
    }
    for _ in 0..15 {
        at.push(p(c.rng.range(bb[0] - ex, bb[2] + ex), c.rng.range(bb[1] - ex, bb[3] + ex)));
    }
    for q in at {
        let s = sd(pa, ccw, q);
        if (s - d).abs() < m {
            continue;
        }
        let w = (s >= d) as i64 - if ccw { 0 } else { 1 };
        let g: i64 = res.iter().map(|x| x.winding(q)).sum();
        ensure!(g == w, "offset-membership", "({:?},{:?}) at signed distance {s} of offset {d} is wound {g} times, must be {w}", q.x, q.y);
        c.ev("membership_points", 1);
    }
    Ok(())
}
fn offset(c: &mut Case) -> R {
    let st = if c.rng.chance(0.6) { Style::General } else { Style::Grid };
    let mut pa = gen_::closed(&mut c.rng, st, 0.08);
    if st == Style::General {
        pa = rounded(&gen_::place(&mut c.rng, &[&pa], (0.5, 5.0), 3.0).0[0]);
    }
    let pa = rounded(&pa);
    let inr = pa.area().abs() / pa.len() * 2.0;
    let d = (c.rng.sign() * (c.rng.range(0.05, 1.3) * inr).max(0.02)) as f32 as f64;
    c.input(format!("offset {d:?} {}", ptext(&pa)));
    c.nontrivial();
    c.ev("offset_cases", 1);
    let Err(e) = offset_run(c, &pa, d) else { return Ok(()) };
    for k in [1.0 - 8e-3, 1.0 + 8e-3, 1.0 - 2e-2, 1.0 + 2e-2, 0.95, 1.05, 0.88, 1.12] {
        if offset_run(c, &pa, d * k).is_ok() {
            c.soft("offset_deviations", e);
            return Ok(());
        }
    }
    if reach(&pa) > 60.0 {
        // almost flat arcs: radii of hundreds of units
        c.soft("offset_deviations", e);
        return Ok(());
    }
    Err(e)
}
fn open_offset(c: &mut Case) -> R {
    let pa = rounded(&gen_::open(&mut c.rng, Style::General, true, 0.1));
    let d = (c.rng.sign() * c.rng.range(0.05, 0.8)) as f32 as f64;
    c.input(format!("offset {d:?} {}", ptext(&pa)));
    c.nontrivial();
    c.ev("open_offset_cases", 1);
    let l: S = to_pl32(&pa.v, false);
    let tol = 5e-3;
    let r = (|| {
        let mut n = 0;
        for q in l.parallel_offset(d as f32).iter().map(ps) {
            for s in &q.segs {
                for t in [0.1, 0.5, 0.9] {
                    let g = pa.dist(s.at(t));
                    ensure!((g - d.abs()).abs() <= tol, "open-distance", "{:?} is {g} from the input, must be {d}", s.at(t));
                    n += 1;
                }
            }
        }
        Ok(n)
    })();
    match r {
        Ok(n) => c.ev("open_result_points", n),
        Err(e) => c.soft("open_offset_deviations", e),
    }
    Ok(())
}
fn shape(c: &mut Case) -> R {
    // an outline with holes well inside
    let (w, h) = (c.rng.range(6.0, 10.0), c.rng.range(6.0, 10.0));
    let mut all = vec![rounded(&Path::new(gen_::rect(-w, -h, w, h), true))];
    for k in 0..c.rng.int(1, 4) {
        let q = gen_::circle(p(-w + (k as f64 + 0.5) * w / 2.0, c.rng.range(-h + 2.5, h - 2.5)), c.rng.range(0.5, 0.9), 0.3, 2);
        let mut q = rounded(&Path::new(q, true));
        if q.area() > 0.0 {
            q = Path::new(reverse(&q.v, true), true);
        }
        all.push(q);
    }
    let d = (c.rng.sign() * c.rng.range(0.05, 1.2)) as f32 as f64;
    c.input(format!("shape offset {d:?} {}", all.iter().map(ptext).collect::<Vec<_>>().join(" ")));
    c.nontrivial();
    c.ev("shape_cases", 1);
    let s = Shape::from_plines(all.iter().map(|q| to_pl32(&q.v, true)));
    let o = s.parallel_offset(d as f32, ShapeOffsetOptions::default());
    let res: Vec<Path> = o.ccw_plines.iter().chain(&o.cw_plines).map(|x| ps(&x.polyline)).collect();
    let r = (|| {
        let sdist = |q: P| {
            let dist = all.iter().map(|x| x.dist(q)).fold(f64::MAX, f64::min);
            if all.iter().map(|x| x.winding(q)).sum::<i64>() > 0 { dist } else { -dist }
        };
        for s in res.iter().flat_map(|q| &q.segs) {
            for t in [0.1, 0.6] {
                let g = sdist(s.at(t));
                ensure!((g - d).abs() <= 5e-3, "shape-distance", "{:?} is {g} from the shape, must be {d}", s.at(t));
            }
        }
        for _ in 0..40 {
            let q = p(c.rng.range(-w - 1.0, w + 1.0), c.rng.range(-h - 1.0, h + 1.0));
            let s = sdist(q);
            if (s - d).abs() > 2e-2 {
                let g: i64 = res.iter().map(|x| x.winding(q)).sum();
                ensure!(g == (s > d) as i64, "shape-membership", "({:?},{:?}) at {s} of offset {d} is wound {g} times", q.x, q.y);
                c.ev("membership_points", 1);
            }
        }
        Ok(())
    })();
    if let Err(e) = r {
        c.soft("shape_deviations", e);
    }
    Ok(())
}

fn main() -> ! {
    gen_::NO_FAR.store(true, std::sync::atomic::Ordering::Relaxed);
    let cl = |name, quick, thorough, f| Class { name, quick, thorough, f };
    cavc_monitor::rep::main(vec![Property {
        id: "C28",
        rule: "every operation on polylines of 32 bit numbers against the exact geometry of the same numbers; nontrivial: more than two vertexes and arcs, or two outlines, or an offset",
        classes: vec![
            cl("measures", 32000, 2400000, measures as fn(&mut Case) -> R),
            cl("edits", 16000, 1200000, edits),
            cl("intersects", 12000, 900000, intersects),
            cl("self", 24000, 1800000, self_intersects),
            cl("boolean", 8000, 600000, boolean_general),
            cl("boolean-grid", 8000, 600000, boolean_grid),
            cl("offset", 16000, 1200000, offset),
            cl("open-offset", 12000, 900000, open_offset),
            cl("shape", 8000, 600000, shape),
        ],
        floors: vec![("areas", 10000), ("closest_points", 50000), ("windings", 50000), ("lengths", 50000), ("approximated", 5000), ("views", 5000), ("rotated", 5000), ("simplified", 500), ("crossings", 10000), ("self_crossings", 500),
            ("operations", 20000), ("result_loops", 20000), ("offset_loops", 5000), ("membership_points", 500000), ("open_result_points", 50000)],
        rates: vec![
            ("isolated_deviations", "cases", 5e-4),
            ("simplify_deviations", "simplified", 2e-3),
            ("grid_deviations", "grid_cases", 1e-3),
            ("offset_deviations", "offset_cases", 1.5e-3),
            ("open_offset_deviations", "open_offset_cases", 1e-3),
            ("shape_deviations", "shape_cases", 1e-3),
        ],
    }])
}
