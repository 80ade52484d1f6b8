//! Monitors for measures and queries: area, length, extents, winding number, closest point, lookup
//! by length, segment primitives and base math.
use cavalier_contours::core::math::*;
use cavalier_contours::core::traits::*;
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::*;
use cavalier_contours::static_aabb2d_index::{AABB, StaticAABB2DIndex};
use cavc_monitor::ensure;
use cavc_monitor::gen_::*;
use cavc_monitor::geom::*;
use cavc_monitor::lib_api::*;
use cavc_monitor::rep::*;
use cavc_monitor::rng::Rng;
use std::f64::consts::{PI, TAU};

/// radius, 0 for lines
fn rad(s: &Seg) -> f64 {
    match *s {
        Seg::A { r, .. } => r,
        _ => 0.0,
    }
}
fn rmax(pa: &Path) -> f64 {
    pa.segs.iter().map(rad).fold(0.0, f64::max)
}
fn min_seg(pa: &Path) -> f64 {
    pa.segs.iter().map(|s| s.a().dist(s.b())).filter(|&d| d > 0.0).fold(f64::MAX, f64::min)
}
/// repeated positions that are not exactly equal are below the resolution of the queries
fn near_repeats(pa: &Path) -> bool {
    pa.segs.iter().any(|s| {
        let d = s.a().dist(s.b());
        d > 0.0 && d < 1e-6
    })
}
fn wildp(c: &mut Case) -> Option<(Path, PL)> {
    let pa = wild(&mut c.rng);
    c.input(ptext(&pa));
    if near_repeats(&pa) {
        c.skip();
        return None;
    }
    let l = to_pl(&pa.v, pa.closed);
    Some((pa, l))
}

// ---------------------------------------------------------------- C12

fn c12(c: &mut Case) -> R {
    let Some((pa, l)) = wildp(c) else { return Ok(()) };
    let m = pa.max_abs();
    let n = pa.v.len() as f64;
    if pa.segs.len() >= 2 {
        c.nontrivial();
    }
    let one = |l: &dyn Fn() -> (f64, f64, PlineOrientation), pa: &Path, what: &str, c: &mut Case| -> R {
        let (area, len, ori) = l();
        let want = pa.area();
        let r2: f64 = pa.segs.iter().map(|s| rad(s) * rad(s)).sum();
        let mm = pa.max_abs();
        let tol = 4e-14 * (n * mm * mm + r2) + 1e-300;
        ensure!((area - want).abs() <= tol, "area", "{what}: area {area:?}, must be {want:?} (off by {:e})", area - want);
        let wl = pa.len();
        let tl: f64 = pa.segs.iter().map(|s| 2e-14 * (rad(s) + mm + 1e-300)).sum();
        ensure!((len - wl).abs() <= tl, "length", "{what}: path length {len:?}, must be {wl:?} (off by {:e})", len - wl);
        if !pa.closed {
            ensure!(ori == PlineOrientation::Open && area == 0.0, "orientation", "{what}: open polyline has {ori:?} and area {area:?}");
            c.ev("open_polylines", 1);
        } else if want.abs() > tol {
            let w = if want > 0.0 { PlineOrientation::CounterClockwise } else { PlineOrientation::Clockwise };
            ensure!(ori == w, "orientation", "{what}: {ori:?}, area is {want:?}");
            c.ev("orientations", 1);
        } else {
            ensure!(ori != PlineOrientation::Open, "orientation", "{what}: closed polyline reported open");
        }
        c.ev("measures", 1);
        Ok(())
    };
    let pl = |l: &PL| (l.area(), l.path_length(), l.orientation());
    one(&|| pl(&l), &pa, "polyline", c)?;
    // the same measures hold for the reversed, restarted, mirrored and moved curve
    if pa.segs.len() >= 2 {
        let (k, rot) = (c.rng.logrange(0.1, 10.0), c.rng.range(0.0, TAU));
        let v = match c.rng.below(4) {
            0 => reverse(&pa.v, pa.closed),
            1 if pa.closed => rotate(&pa.v, c.rng.below(pa.v.len())),
            2 => mirror(&pa.v),
            _ => transform(&pa.v, k, rot, c.rng.range(-m, m), c.rng.range(-m, m)),
        };
        let q = Path::new(v, pa.closed);
        let lq = to_pl(&q.v, q.closed);
        one(&|| pl(&lq), &q, "transformed polyline", c)?;
        // through another implementation of the same trait
        let no_repeats = pa.closed && pa.segs.iter().all(|s| s.a().dist(s.b()) > 1e-4);
        if let Some(vd) = if no_repeats { PlineViewData::from_new_start(&l, l.at(0).pos(), 0, 1e-9) } else { None } {
            let view = vd.view(&l);
            let q = path_of(&view);
            ensure!((view.path_length() - q.len()).abs() < 1e-12 * (q.len() + rmax(&q) + m), "length", "view: {} not {}", view.path_length(), q.len());
            c.ev("view_measures", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

fn bx(b: &AABB<f64>) -> [f64; 4] {
    [b.min_x, b.min_y, b.max_x, b.max_y]
}
fn close_box(got: &[f64; 4], want: &[f64; 4], tol: f64) -> bool {
    (0..4).all(|i| (got[i] - want[i]).abs() <= tol)
}
fn contains_box(big: &[f64; 4], small: &[f64; 4], tol: f64) -> bool {
    big[0] <= small[0] + tol && big[1] <= small[1] + tol && big[2] >= small[2] - tol && big[3] >= small[3] - tol
}
fn overlap(a: &[f64; 4], b: &[f64; 4], grow: f64) -> bool {
    a[0] <= b[2] + grow && b[0] <= a[2] + grow && a[1] <= b[3] + grow && b[1] <= a[3] + grow
}
fn check_index(ix: &StaticAABB2DIndex<f64>, boxes: &[[f64; 4]], tol: f64, exact: bool, rng: &mut Rng, all: &[f64; 4], what: &str) -> Result<u64, Fail> {
    let mut n = 0;
    ensure!(ix.count() == boxes.len(), "index-count", "{what}: {} items for {} segments", ix.count(), boxes.len());
    if boxes.is_empty() {
        ensure!(ix.query(-1e9, -1e9, 1e9, 1e9).is_empty(), "index-query", "{what}: empty index answers");
        return Ok(0);
    }
    let b = bx(&ix.bounds().unwrap());
    ensure!(contains_box(&b, all, tol), "index-bounds", "{what}: bounds {b:?} do not contain {all:?}");
    if exact {
        ensure!(close_box(&b, all, tol), "index-bounds", "{what}: bounds {b:?}, curve is in {all:?}");
    }
    for q in 0..6 {
        let w = match q {
            0 => *all,
            1 | 2 => {
                let k = rng.below(boxes.len());
                let e = boxes[k];
                // around one segment's extreme point
                let (x, y) = (rng.pick(&[e[0], e[2]]), rng.pick(&[e[1], e[3]]));
                let h = rng.logrange(1e-6, 1.0) * (1.0 + all[2] - all[0]);
                [x - h, y - h, x + h, y + h]
            }
            _ => {
                let (x, y) = (rng.range(all[0], all[2]), rng.range(all[1], all[3]));
                let h = rng.f() * (all[2] - all[0]) * 0.3;
                let g = rng.f() * (all[3] - all[1]) * 0.3;
                [x - h, y - g, x + h, y + g]
            }
        };
        let mut got = ix.query(w[0], w[1], w[2], w[3]);
        got.sort_unstable();
        n += 1;
        ensure!(got.windows(2).all(|x| x[0] != x[1]) && got.iter().all(|&i| i < boxes.len()), "index-query", "{what}: query gives {got:?}");
        for (k, e) in boxes.iter().enumerate() {
            let has = got.binary_search(&k).is_ok();
            if overlap(e, &w, -tol) {
                ensure!(has, "index-query", "{what}: query of {w:?} misses segment {k} with box {e:?}");
            } else if exact && !overlap(e, &w, tol) {
                ensure!(!has, "index-query", "{what}: query of {w:?} reports segment {k} with box {e:?}");
            }
        }
    }
    Ok(n)
}

fn c13(c: &mut Case) -> R {
    let Some((pa, l)) = wildp(c) else { return Ok(()) };
    let tol = 1e-13 * (pa.max_abs() + rmax(&pa)) * 4.0 + 1e-300;
    if pa.segs.iter().any(|s| s.is_arc()) {
        c.nontrivial();
    }
    let e = l.extents();
    if pa.segs.is_empty() {
        ensure!(e.is_none(), "extents-none", "{} vertexes: {e:?}", pa.v.len());
    } else {
        let Some(e) = e else { return fail("extents-none", "no extents although there are segments".into()) };
        let (g, w) = (bx(&e), pa.bbox());
        ensure!(close_box(&g, &w, tol), "extents", "{g:?} must be {w:?}");
        c.ev("extents", 1);
    }
    let mut i = 0;
    for (a, b) in l.iter_segments() {
        let w = pa.boxes[i];
        let ex = bx(&seg_bounding_box(a, b));
        let t = 1e-13 * (pa.max_abs() + rad(&pa.segs[i])) * 4.0 + 1e-300;
        ensure!(close_box(&ex, &w, t), "seg-box", "segment {i}: {ex:?} must be {w:?}");
        let ap = bx(&seg_fast_approx_bounding_box(a, b));
        ensure!(contains_box(&ap, &w, t), "seg-approx-box", "segment {i}: {ap:?} does not contain {w:?}");
        if !pa.segs[i].is_arc() {
            ensure!(close_box(&ap, &w, t), "seg-approx-box", "line segment {i}: {ap:?} must be {w:?}");
        }
        c.ev("segment_boxes", 1);
        i += 1;
    }
    let all = if pa.segs.is_empty() { [0.0; 4] } else { pa.bbox() };
    let mut r = c.rng.clone();
    let n = check_index(&l.create_aabb_index(), &pa.boxes, tol, true, &mut r, &all, "exact index")?
        + check_index(&l.create_approx_aabb_index(), &pa.boxes, tol, false, &mut r, &all, "approximate index")?
        + check_index(&IndexedPolyline::new(l.clone()).spatial_index, &pa.boxes, tol, false, &mut r, &all, "indexed polyline")?;
    c.ev("index_queries", n);
    Ok(())
}

fn c13_shape(c: &mut Case) -> R {
    let k = c.rng.int(0, 4) as usize;
    let ps: Vec<Path> = (0..k)
        .map(|_| {
            let q = wild(&mut c.rng);
            Path::new(q.v, true)
        })
        .collect();
    c.input(format!("shape {}", ps.iter().map(ptext).collect::<Vec<_>>().join(" + ")));
    let s = Shape::from_plines(ps.iter().map(|q| to_pl(&q.v, true)));
    let live: Vec<&Path> = ps.iter().filter(|q| q.v.len() > 1).collect();
    let all: Vec<&IndexedPolyline<f64>> = s.ccw_plines.iter().chain(s.cw_plines.iter()).collect();
    ensure!(all.len() == live.len(), "shape-loops", "{} loops kept of {}", all.len(), live.len());
    ensure!(s.plines_index.count() == live.len(), "shape-index", "{} boxes for {} loops", s.plines_index.count(), live.len());
    if live.len() > 1 {
        c.nontrivial();
    }
    for (i, l) in all.iter().enumerate() {
        let q = path_of(&l.polyline);
        let w = q.bbox();
        let tol = 1e-12 * (q.max_abs() + rmax(&q));
        let b = bx(&l.spatial_index.bounds().unwrap());
        ensure!(contains_box(&b, &w, tol), "shape-index", "loop {i}: bounds {b:?} do not contain {w:?}");
        // the index of the shape answers with the position in ccw loops followed by cw loops
        for (x, y) in [(w[0], w[1]), (w[2], w[3]), ((w[0] + w[2]) / 2.0, (w[1] + w[3]) / 2.0)] {
            let h = 1e-9 * (1.0 + q.max_abs());
            let got = s.plines_index.query(x - h, y - h, x + h, y + h);
            ensure!(got.contains(&i), "shape-index", "query at {x:?} {y:?} misses loop {i}");
            c.ev("shape_index_queries", 1);
        }
        let a = q.area();
        let lim = 1e-9 * (1.0 + q.max_abs() * q.max_abs());
        if a.abs() > lim {
            ensure!((a > 0.0) == (i < s.ccw_plines.len()), "shape-loops", "loop {i} of area {a} is in the wrong list");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

fn c14(c: &mut Case) -> R {
    let Some((pa, l)) = wildp(c) else { return Ok(()) };
    if pa.segs.is_empty() {
        for q in [p(0.0, 0.0), p(1.0, 2.0)] {
            ensure!(l.winding_number(v2(q)) == 0, "winding", "{} vertexes wind around {q:?}", pa.v.len());
        }
        return Ok(());
    }
    let b = pa.bbox();
    let (w, h) = (b[2] - b[0], b[3] - b[1]);
    let size = w.max(h);
    if size < 1e-3 || rmax(&pa) > 1e4 * size {
        c.skip();
        return Ok(());
    }
    c.nontrivial();
    let margin = 1e-7 * (size + pa.max_abs() + rmax(&pa));
    let n = 16;
    for k in 0..n {
        let r = &mut c.rng;
        let s = pa.segs[r.below(pa.segs.len())];
        let t = pa.segs[r.below(pa.segs.len())];
        let (rx, ry) = (r.range(b[0] - 0.1 * w, b[2] + 0.1 * w), r.range(b[1] - 0.1 * h, b[3] + 0.1 * h));
        let ext = |s: &Seg, r: &mut Rng| {
            // an axis extreme of the circle of an arc, or an end point
            match *s {
                Seg::A { c, r: rr, .. } if r.chance(0.6) => c + r.pick(&[p(rr, 0.0), p(-rr, 0.0), p(0.0, rr), p(0.0, -rr), p(0.0, 0.0)]),
                _ => s.a(),
            }
        };
        let q = match k % 8 {
            0 | 1 => p(rx, ry),
            2 => p(rx, ext(&s, r).y),
            3 => p(ext(&s, r).x, ry),
            4 => p(ext(&s, r).x, ext(&t, r).y),
            5 => s.a() + (s.b() - s.a()) * r.range(-0.5, 1.5), // on the chord or its extension
            6 => {
                // close to the curve
                let m = s.at(r.f());
                m + polar(p(0.0, 0.0), r.logrange(1e-6, 0.1) * size, r.range(0.0, TAU))
            }
            _ => p(s.b().x, s.b().y + r.sign() * r.logrange(1e-6, 1.0) * size),
        };
        if pa.dist(q) < margin {
            c.ev("points_on_curve_skipped", 1);
            continue;
        }
        let want = pa.winding(q);
        let got = l.winding_number(v2(q)) as i64;
        ensure!(got == want, "winding", "point {q:?}: {got}, turns are {want} (distance {:e})", pa.dist(q));
        c.ev("windings", 1);
        if want.abs() > 1 {
            c.ev("multiple_windings", 1);
        }
        if want != 0 {
            c.ev("inside", 1);
        }
        if k % 8 >= 2 && k % 8 <= 5 {
            c.ev("aligned_points", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

fn c15(c: &mut Case) -> R {
    let Some((pa, l)) = wildp(c) else { return Ok(()) };
    let eps = c.rng.pick(&[1e-5, 1e-8]);
    if pa.v.is_empty() {
        ensure!(l.closest_point(Vector2::new(0.0, 0.0), eps).is_none(), "closest-none", "empty polyline has a closest point");
        return Ok(());
    }
    let b = if pa.segs.is_empty() { let q = pa.pos(0); [q.x, q.y, q.x, q.y] } else { pa.bbox() };
    let size = (b[2] - b[0]).max(b[3] - b[1]).max(0.01);
    if rmax(&pa) > 1e4 * size {
        c.skip();
        return Ok(());
    }
    c.nontrivial();
    let ms = min_seg(&pa).min(size);
    for k in 0..10 {
        let r = &mut c.rng;
        let s = if pa.segs.is_empty() { Seg::L { a: pa.pos(0), b: pa.pos(0) } } else { pa.segs[r.below(pa.segs.len())] };
        let q = match k % 6 {
            0 => p(r.range(b[0] - size, b[2] + size), r.range(b[1] - size, b[3] + size)),
            1 => s.at(r.f()),
            2 => match s {
                Seg::A { c, r: rr, .. } => c + polar(p(0.0, 0.0), if r.chance(0.3) { 0.0 } else { rr * r.logrange(1e-9, 0.5) }, r.range(0.0, TAU)),
                _ => s.a(),
            },
            3 => s.at(r.f()) + polar(p(0.0, 0.0), r.logrange(1e-8, 2.0) * size, r.range(0.0, TAU)),
            4 => s.b() + s.tan(1.0) * (r.f() * size), // beyond the end
            _ => p(r.range(b[0], b[2]), r.range(b[1], b[3])),
        };
        if !q.x.is_finite() || !q.y.is_finite() {
            continue;
        }
        let Some(g) = l.closest_point(v2(q), eps) else {
            return fail("closest-none", "no closest point of a non empty polyline".into());
        };
        let cp = pt(g.seg_point);
        let want = pa.dist(q);
        let i = g.seg_start_index;
        ensure!(i < pa.v.len().max(1) && (pa.segs.is_empty() || i < pa.segs.len()), "closest-index", "segment {i} of {}", pa.segs.len());
        let tiny = 1e-12 * (size + pa.max_abs() + rmax(&pa) + q.len());
        // lines snap to their ends within 1e-8 / length, arcs use the epsilon on a cross product
        let tol = 4.0 * eps + 4e-8 / ms + tiny;
        let on = if pa.segs.is_empty() { cp.dist(pa.pos(0)) } else { pa.segs[i].dist(cp) };
        ensure!(on <= tol, "closest-off-segment", "query {q:?}: point {cp:?} is {on:e} away from segment {i}");
        ensure!((cp.dist(q) - g.distance).abs() <= 1e-9 * (1.0 + g.distance) + tiny, "closest-distance", "query {q:?}: distance {} but point is {} away", g.distance, cp.dist(q));
        ensure!((g.distance - want).abs() <= tol, "closest-not-nearest", "query {q:?}: distance {:?}, the curve is {want:?} away", g.distance);
        c.ev("closest_points", 1);
        if k % 6 == 2 {
            c.ev("near_centers", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

fn c16(c: &mut Case) -> R {
    let Some((pa, l)) = wildp(c) else { return Ok(()) };
    if pa.segs.is_empty() {
        if pa.v.len() == 1 {
            let g = l.find_point_at_path_length(0.0);
            ensure!(matches!(g, Ok((0, q)) if pt(q) == pa.pos(0)), "lookup-zero", "{g:?}");
            let g = l.find_point_at_path_length(1.0);
            ensure!(matches!(g, Err(t) if t == 0.0), "lookup-beyond", "{g:?}");
        }
        return Ok(());
    }
    let total = pa.len();
    if rmax(&pa) > 1e6 * (1.0 + pa.diag()) {
        c.skip();
        return Ok(());
    }
    c.nontrivial();
    let tol = 1e-12 * (pa.max_abs() + total + rmax(&pa)) * 4.0;
    let cum: Vec<f64> = pa
        .segs
        .iter()
        .scan(0.0, |a, s| {
            let o = *a;
            *a += s.len();
            Some(o)
        })
        .collect();
    for k in 0..10 {
        let r = &mut c.rng;
        let t = match k {
            0 => 0.0,
            1 => -r.range(0.0, 5.0),
            2 => l.path_length(),
            3 => total * (1.0 + r.logrange(1e-6, 3.0)),
            4 | 5 => cum[r.below(cum.len())],
            _ => total * r.f(),
        };
        let g = l.find_point_at_path_length(t);
        if t <= 0.0 {
            ensure!(matches!(g, Ok((0, q)) if pt(q).dist(pa.pos(0)) <= tol), "lookup-zero", "target {t:?}: {g:?}");
            c.ev("lookups", 1);
            continue;
        }
        match g {
            Err(got) => {
                ensure!(t > total - tol && k != 2, "lookup-refused", "target {t:?} of {total:?} refused with {got:?}");
                ensure!((got - total).abs() <= tol, "lookup-total", "target {t:?}: total {got:?} reported, must be {total:?}");
                c.ev("refused", 1);
            }
            Ok((i, q)) => {
                ensure!(t <= total + tol, "lookup-beyond", "target {t:?} of {total:?} gives {g:?}");
                ensure!(i < pa.segs.len(), "lookup-index", "segment {i}");
                let s = &pa.segs[i];
                let u = t - cum[i];
                ensure!(u >= -tol && u <= s.len() + tol, "lookup-index", "target {t:?}: segment {i} covers {:?} to {:?}", cum[i], cum[i] + s.len());
                let w = s.at(if s.len() > 0.0 { (u / s.len()).clamp(0.0, 1.0) } else { 0.0 });
                let e = w.dist(pt(q));
                ensure!(e <= tol, "lookup-point", "target {t:?}: {q:?} is {e:e} away from {w:?}");
                c.ev("lookups", 1);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C30

fn c30(c: &mut Case) -> R {
    let r = &mut c.rng;
    let shift = r.pick(&[0.0, 0.0, 10.0, 1000.0]);
    let a = p(r.range(-5.0, 5.0) + shift, r.range(-5.0, 5.0) - shift);
    let d = r.logrange(1e-3, 1e3);
    let th = if r.chance(0.3) { r.below(8) as f64 * PI / 4.0 } else { r.range(0.0, TAU) };
    let b = a + polar(p(0.0, 0.0), d, th);
    let bu = match r.below(8) {
        0 => 0.0,
        1 => r.sign(),
        2 => r.sign() * Q,
        3 => r.sign() * r.logrange(1e-7, 1e-2),
        4 => r.sign() * (1.0 - r.logrange(1e-12, 1e-3)),
        _ => r.sign() * r.f(),
    };
    let v1 = [a.x, a.y, bu];
    let b2 = r.pick(&[0.0, 0.5, -1.0]);
    let v2_ = [b.x, b.y, b2];
    c.input(text(&[v1, v2_], false));
    let s = Seg::new(v1, v2_);
    let (x, y) = (vv(v1), vv(v2_));
    c.nontrivial();
    let m = a.x.abs().max(a.y.abs()).max(b.x.abs()).max(b.y.abs()) + d;
    let rr = rad(&s);
    let t = 2e-14 * (m + rr);
    let len = seg_length(x, y);
    ensure!((len - s.len()).abs() <= t * 2.0, "length", "{len:?} must be {:?}", s.len());
    let mid = pt(seg_midpoint(x, y));
    ensure!(mid.dist(s.at(0.5)) <= 4.0 * t, "midpoint", "{mid:?} must be {:?}", s.at(0.5));
    if let Seg::A { c: ce, r: rr, .. } = s {
        let (gr, gc) = seg_arc_radius_and_center(x, y);
        ensure!((gr - rr).abs() <= 1e-13 * rr, "radius", "{gr:?} must be {rr:?}");
        ensure!(pt(gc).dist(ce) <= 2.0 * t, "center", "{gc:?} must be {ce:?}");
        c.ev("arcs", 1);
    }
    for k in 0..4 {
        let u = match k {
            0 => c.rng.pick(&[0.0, 1.0]),
            _ => c.rng.f(),
        };
        let q = s.at(u);
        // tangent
        let g = pt(seg_tangent_vector(x, y, v2(q)));
        let w = s.tan(u);
        let ge = g.unit();
        let bad = ge.cross(w).abs() > 1e-9 * (1.0 + m / d.min(rr.max(d))) || ge.dot(w) < 0.0;
        ensure!(!bad, "tangent", "at {q:?}: {g:?}, direction is {w:?}");
        // split
        let inner = u * s.len() > 1e-4 && (1.0 - u) * s.len() > 1e-4;
        let eps = 1e-5;
        let sp = seg_split_at_point(x, y, v2(q), eps);
        let (s1, s2) = (sp.updated_start, sp.split_vertex);
        ensure!(pt(s2.pos()).dist(q) <= 2.0 * eps, "split", "split vertex {s2:?} is not at {q:?}");
        ensure!(pt(s1.pos()).dist(a) <= 2.0 * eps, "split", "start {s1:?} moved from {a:?}");
        let part1 = Seg::new([s1.x, s1.y, s1.bulge], [s2.x, s2.y, s2.bulge]);
        let part2 = Seg::new([s2.x, s2.y, s2.bulge], [b.x, b.y, b2]);
        let st = 1e-9 * (m + rr) + if inner { 0.0 } else { 4.0 * eps };
        if d > 1e-2 {
            for j in 0..5 {
                let f = j as f64 / 4.0;
                let (p1, p2) = (part1.at(f), part2.at(f));
                let (w1, w2) = (s.at(u * f), s.at(u + (1.0 - u) * f));
                // zero length parts are a point
                let e1 = if part1.a().dist(part1.b()) < 1e-12 { part1.a().dist(w1) } else { p1.dist(w1) };
                let e2 = if part2.a().dist(part2.b()) < 1e-12 { part2.a().dist(w2) } else { p2.dist(w2) };
                ensure!(e1 <= st && e2 <= st, "split", "parts leave the segment by {e1:e} and {e2:e} (at {u})");
            }
            c.ev("splits", 1);
        }
        // closest point of arbitrary points
        let off = polar(p(0.0, 0.0), c.rng.logrange(1e-6, 2.0) * d, c.rng.range(0.0, TAU));
        let z = if k == 3 {
            match s {
                Seg::A { c, r, .. } => c + off * (r / d),
                _ => q + off,
            }
        } else {
            q + off
        };
        let ce = c.rng.pick(&[1e-5, 1e-8]);
        let g = pt(seg_closest_point(x, y, v2(z), ce));
        let want = s.dist(z);
        let tol = 4.0 * ce + 2e-8 / d + 1e-13 * (m + rr + z.len()) * 10.0;
        ensure!(s.dist(g) <= tol, "closest", "{g:?} is {:e} off the segment (query {z:?})", s.dist(g));
        ensure!((g.dist(z) - want).abs() <= tol, "closest", "{g:?} is {} away from {z:?}, the segment {want}", g.dist(z));
        c.ev("closest", 1);
    }
    let tb = 1e-13 * (m + rr);
    let (e, w) = (bx(&seg_bounding_box(x, y)), s.bbox());
    ensure!(close_box(&e, &w, tb), "box", "{e:?} must be {w:?}");
    let ap = bx(&seg_fast_approx_bounding_box(x, y));
    ensure!(contains_box(&ap, &w, tb), "approx-box", "{ap:?} does not contain {w:?}");
    Ok(())
}

// ---------------------------------------------------------------- C31

fn c31_angles(c: &mut Case) -> R {
    let r = &mut c.rng;
    let ang = |r: &mut Rng| {
        let k = r.int(-16, 16) as f64 * PI / 4.0;
        match r.below(5) {
            0 => k,
            1 => k + r.sign() * r.logrange(1e-15, 1e-3),
            2 => r.range(-TAU, 2.0 * TAU),
            3 => r.range(-100.0, 100.0),
            _ => r.range(-7.0, 7.0),
        }
    };
    let (a, b, t) = (ang(r), ang(r), ang(r));
    let eps = r.pick(&[1e-5, 1e-8, 1e-3]);
    c.input(format!("angles {a:?} {b:?} {t:?} {eps:?}"));
    c.nontrivial();
    let tol = 1e-13;
    let circ = |x: f64| {
        let y = norm(x);
        y.min(TAU - y)
    };
    let n = normalize_radians(a);
    ensure!((0.0..=TAU).contains(&n), "normalize", "normalize_radians({a:?}) = {n:?}");
    ensure!(circ(n - a) < tol, "normalize", "normalize_radians({a:?}) = {n:?} is another angle");
    if (0.0..=TAU).contains(&a) {
        ensure!(n == a, "normalize", "{a:?} must be left unchanged, is {n:?}");
    }
    // delta angle: the turn from a to b, at most a half
    let d = delta_angle(a, b);
    ensure!(d > -PI - tol && d <= PI + tol && circ(a + d - b) < tol, "delta", "delta_angle({a:?}, {b:?}) = {d:?}");
    for neg in [false, true] {
        let s = delta_angle_signed(a, b, neg);
        ensure!((s.abs() - d.abs()).abs() < tol && (s == 0.0 || (s < 0.0) == neg), "delta-signed", "delta_angle_signed({a:?}, {b:?}, {neg}) = {s:?}");
    }
    // sweeps; within tolerance of the ends either answer is accepted
    let (e, m) = (norm(b - a), norm(t - a));
    let near = |x: f64, y: f64| circ(x - y) < 2.0 * eps + 1e-12;
    if !near(m, 0.0) && !near(m, e) && !near(e, 0.0) {
        let want = m < e;
        let g = angle_is_between_eps(t, a, b, eps);
        ensure!(g == want, "between", "angle_is_between({t:?}, {a:?}, {b:?}) = {g}");
        ensure!(angle_is_between(t, a, b) == want, "between", "angle_is_between({t:?}, {a:?}, {b:?}) with default epsilon");
        c.ev("between", 1);
    }
    // documented as inclusive: exactly equal bounds belong
    if t == b {
        ensure!(angle_is_between_eps(t, a, b, eps), "between", "end angle {b:?} excluded");
    }
    ensure!(angle_is_between_eps(a, a, b, eps), "between", "start angle {a:?} excluded");
    let sw = r_sweep(&mut c.rng);
    let rel = if sw > 0.0 { norm(t - a) } else { norm(a - t) };
    if !near(rel, 0.0) && !near(rel, sw.abs()) && circ(sw) > 2.0 * eps + 1e-12 {
        let want = rel < sw.abs();
        ensure!(angle_is_within_sweep_eps(t, a, sw, eps) == want, "sweep", "angle_is_within_sweep({t:?}, {a:?}, {sw:?}) must be {want}");
        ensure!(angle_is_within_sweep(t, a, sw) == want, "sweep", "angle_is_within_sweep({t:?}, {a:?}, {sw:?}) must be {want}, default epsilon");
        c.ev("sweeps", 1);
    }
    // bulge
    let bu = (sw / 4.0).tan();
    ensure!((bulge_from_angle(sw) - bu).abs() < 1e-14 * (1.0 + bu.abs()), "bulge", "bulge_from_angle({sw:?})");
    ensure!((angle_from_bulge(bu) - sw).abs() < 1e-14 * (1.0 + sw.abs()) * 4.0, "bulge", "angle_from_bulge({bu:?}) = {:?}, must be {sw:?}", angle_from_bulge(bu));
    Ok(())
}
fn r_sweep(r: &mut Rng) -> f64 {
    r.sign() * match r.below(4) {
        0 => PI,
        1 => PI / 2.0,
        2 => r.logrange(1e-3, 1.0),
        _ => r.range(0.01, 6.2),
    }
}

fn c31_points(c: &mut Case) -> R {
    let r = &mut c.rng;
    let big = r.pick(&[1.0, 10.0, 1000.0]);
    let grid = r.chance(0.4);
    let rp = |r: &mut Rng| {
        if grid { p(r.int(-4, 4) as f64, r.int(-4, 4) as f64) } else { p(r.range(-big, big), r.range(-big, big)) }
    };
    let (a, b, q) = (rp(r), rp(r), rp(r));
    let th = r.range(-10.0, 10.0);
    let t = r.range(-2.0, 3.0);
    let rad = r.logrange(1e-3, 100.0);
    let k = r.range(-3.0, 3.0);
    let eps = r.pick(&[1e-8, 1e-5, 1e-3]);
    let gap = r.logrange(1e-10, 1.0) * r.sign();
    let swp = r_sweep(r);
    c.input(format!("points {a:?} {b:?} {q:?} angle {th:?} t {t:?} r {rad:?} k {k:?} eps {eps:?} gap {gap:?}"));
    c.nontrivial();
    let tol = 1e-14 * (1.0 + big) * 8.0;
    let (va, vb, vq) = (v2(a), v2(b), v2(q));
    let ne = |x: Vector2<f64>, y: P, tol: f64| pt(x).dist(y) > tol;
    ensure!((dist_squared(va, vb) - (a - b).dot(a - b)).abs() <= tol * big, "dist2", "dist_squared");
    ensure!(pt(midpoint(va, vb)) == (a + b) * 0.5, "midpoint", "midpoint {:?}", midpoint(va, vb));
    if a.dist(b) > 1e-9 {
        let g = angle(va, vb);
        let w = (b - a).ang();
        ensure!((norm(g - w)).min(TAU - norm(g - w)) < 1e-14 * 8.0, "angle", "angle {g:?} must be {w:?}");
    }
    ensure!(!ne(point_on_circle(rad, va, th), polar(a, rad, th), tol * (1.0 + rad)), "on-circle", "point_on_circle");
    let pp = a + (b - a) * t;
    ensure!(!ne(point_from_parametric(va, vb, t), pp, tol * 4.0), "parametric", "point_from_parametric {:?}", point_from_parametric(va, vb, t));
    if a.dist(b) > 1e-2 * big {
        let g = parametric_from_point(va, vb, v2(pp), 1e-5);
        ensure!((g - t).abs() < 1e-10, "parametric", "parametric_from_point gives {g:?} for {t:?}");
        c.ev("parametric", 1);
        let g = pt(line_seg_closest_point(va, vb, vq));
        let s = Seg::L { a, b };
        let lim = 2e-8 / a.dist(b) + tol * 10.0;
        ensure!((g.dist(q) - s.dist(q)).abs() <= lim && s.dist(g) <= lim, "line-closest", "line_seg_closest_point {g:?}: {} away, line {}", g.dist(q), s.dist(q));
        // sides
        let cr = (b - a).cross(q - a);
        let lim = 1e-13 * big * big * 8.0;
        let exact_zero = grid && cr == 0.0;
        if cr.abs() > lim || grid {
            ensure!(is_left(va, vb, vq) == (cr > 0.0), "side", "is_left for side value {cr:e}");
            ensure!(is_left_or_equal(va, vb, vq) == (cr >= 0.0), "side", "is_left_or_equal for side value {cr:e}");
            c.ev("sides", 1);
        }
        if exact_zero {
            c.ev("on_line", 1);
        }
        // fuzzy sides: a point off the line so that the side value is known
        let z = a + (b - a) * t + (b - a).left() * (gap / (b - a).dot(b - a));
        let cz = (b - a).cross(z - a);
        for (e, l, ri) in [
            (eps, is_left_or_coincident_eps(va, vb, v2(z), eps), is_right_or_coincident_eps(va, vb, v2(z), eps)),
            (1e-8, is_left_or_coincident(va, vb, v2(z)), is_right_or_coincident(va, vb, v2(z))),
        ] {
            if (cz.abs() - e).abs() > lim + 1e-3 * e {
                ensure!(l == (cz > -e), "fuzzy-side", "is_left_or_coincident for side value {cz:e} with epsilon {e:e} is {l}");
                ensure!(ri == (cz < e), "fuzzy-side", "is_right_or_coincident for side value {cz:e} with epsilon {e:e} is {ri}");
                c.ev("fuzzy_sides", 1);
            }
        }
    }
    // cone of an arc
    let sw = swp.clamp(-PI, PI);
    let (s, e) = (polar(a, rad, th), polar(a, rad, th + sw));
    if q.dist(a) > 1e-3 {
        let d = (q - a).ang();
        let rel = if sw > 0.0 { norm(d - th) } else { norm(th - d) };
        let slack = 3e-5 / (rad * q.dist(a)) + 1e-9;
        let edge = rel.min(TAU - rel).min((rel - sw.abs()).abs());
        if edge > slack && sw.abs() < PI - slack && sw.abs() > 2.0 * slack {
            let want = rel < sw.abs();
            let g = point_within_arc_sweep(va, v2(s), v2(e), sw < 0.0, vq, 1e-5);
            ensure!(g == want, "cone", "point_within_arc_sweep({a:?}, {s:?}, {e:?}, {}, {q:?}) is {g}", sw < 0.0);
            c.ev("cones", 1);
        }
    }
    // vector operations
    let (x, y) = (a, b);
    let g = va.rotate_about(vb, th);
    let w = polar(b, 1.0, th) - b;
    let rv = x - y;
    let want = y + p(rv.x * w.x - rv.y * w.y, rv.x * w.y + rv.y * w.x);
    ensure!(!ne(g, want, tol * 20.0), "rotate", "rotate_about {g:?} must be {want:?}");
    ensure!(va.dot(vb) == x.dot(y) || (va.dot(vb) - x.dot(y)).abs() < tol * big, "dot", "dot");
    ensure!((va.perp_dot(vb) - x.cross(y)).abs() <= tol * big, "perp-dot", "perp_dot {:?} must be {:?}", va.perp_dot(vb), x.cross(y));
    ensure!(pt(va.perp()) == x.left(), "perp", "perp {:?}", va.perp());
    ensure!((va.length() - x.len()).abs() <= tol && (va.length_squared() - x.dot(x)).abs() <= tol * big, "length", "length");
    ensure!(pt(va.scale(k)) == x * k, "scale", "scale");
    if x.len() > 1e-6 {
        ensure!(!ne(va.normalize(), x.unit(), 1e-14 * 4.0), "normalize", "normalize {:?}", va.normalize());
        ensure!(!ne(va.unit_perp(), x.unit().left(), 1e-14 * 4.0), "unit-perp", "unit_perp {:?}", va.unit_perp());
    }
    ensure!(pt(va + vb) == x + y && pt(va - vb) == x - y && pt(-va) == x * -1.0, "ops", "operators");
    ensure!(pt(&va + vb) == x + y && pt(va - &vb) == x - y && pt(&va - &vb) == x - y && pt(-&va) == x * -1.0, "ops", "operators on references");
    ensure!(pt(Vector2::<f64>::zero()) == p(0.0, 0.0), "ops", "constructors");
    // fuzzy equality of vectors: componentwise
    let vz = v2(p(x.x + gap, x.y));
    let vz2 = v2(p(x.x, x.y + gap));
    for (z, gg) in [(vz, (x.x + gap) - x.x), (vz2, (x.y + gap) - x.y)] {
        if (gg.abs() - eps).abs() > 1e-12 * (1.0 + big) {
            ensure!(va.fuzzy_eq_eps(z, eps) == (gg.abs() < eps), "vec-fuzzy", "difference {gg:e}, epsilon {eps:e}");
        }
        if (gg.abs() - 1e-8).abs() > 1e-12 * (1.0 + big) {
            ensure!(va.fuzzy_eq(z) == (gg.abs() < 1e-8), "vec-fuzzy", "difference {gg:e}, default epsilon");
        }
    }
    Ok(())
}

fn c31_scalars(c: &mut Case) -> R {
    let r = &mut c.rng;
    let (x, e) = (r.range(-10.0, 10.0), r.pick(&[1e-8, 1e-5, 0.01, 0.5]));
    let gap = r.sign() * if r.chance(0.2) { 0.0 } else { r.logrange(1e-11, 3.0) };
    let y = x + gap;
    let hi = y + r.range(0.0, 5.0);
    let r_once = r.chance(0.02);
    c.input(format!("scalars {x:?} {y:?} {hi:?} {e:?}"));
    c.nontrivial();
    let g = y - x;
    let sure = |d: f64, e: f64| (d.abs() - e).abs() > 1e-13;
    macro_rules! both {
        ($t:ty, $sure:expr) => {
            for (eps, eq, gt, lt, rng, z) in [
                (e, (x as $t).fuzzy_eq_eps(y as $t, e as $t), (x as $t).fuzzy_gt_eps(y as $t, e as $t), (x as $t).fuzzy_lt_eps(y as $t, e as $t), (x as $t).fuzzy_in_range_eps(y as $t, hi as $t, e as $t), (g as $t).fuzzy_eq_zero_eps(e as $t)),
                (1e-8, (x as $t).fuzzy_eq(y as $t), (x as $t).fuzzy_gt(y as $t), (x as $t).fuzzy_lt(y as $t), (x as $t).fuzzy_in_range(y as $t, hi as $t), (g as $t).fuzzy_eq_zero()),
            ] {
                if $sure(g, eps) {
                    ensure!(eq == (g.abs() < eps), "fuzzy", "{x:?} fuzzy_eq {y:?} epsilon {eps:e} is {eq}");
                    ensure!(gt == (x + eps > y), "fuzzy", "{x:?} fuzzy_gt {y:?} epsilon {eps:e} is {gt}");
                    ensure!(lt == (x < y + eps), "fuzzy", "{x:?} fuzzy_lt {y:?} epsilon {eps:e} is {lt}");
                    ensure!(z == (g.abs() < eps), "fuzzy", "{g:?} fuzzy_eq_zero epsilon {eps:e} is {z}");
                    if $sure(x - hi, eps) {
                        ensure!(rng == (x + eps > y && x < hi + eps), "fuzzy", "{x:?} in range {y:?}..{hi:?} epsilon {eps:e} is {rng}");
                    }
                    c.ev("fuzzy_comparisons", 1);
                }
            }
        };
    }
    both!(f64, sure);
    if r_once && sure(g, 1e-8) && sure(g, e) {
        // the assertion macro fails exactly when the comparison does
        let ok = std::panic::catch_unwind(|| cavalier_contours::assert_fuzzy_eq!(x, y)).is_ok();
        ensure!(ok == (g.abs() < 1e-8), "fuzzy-assert", "assert_fuzzy_eq!({x:?}, {y:?}) passes: {ok}");
        let ok = std::panic::catch_unwind(|| cavalier_contours::assert_fuzzy_eq!(v2(p(x, hi)), v2(p(y, hi)), e)).is_ok();
        ensure!(ok == (g.abs() < e), "fuzzy-assert", "assert_fuzzy_eq!({x:?}, {y:?}, {e:e}) on vectors passes: {ok}");
        c.ev("fuzzy_assertions", 2);
    }
    both!(f32, |d: f64, e: f64| (d.abs() - e).abs() > 1e-5);
    ensure!(min_max(x, y) == (x.min(y), x.max(y)), "min-max", "min_max({x:?}, {y:?}) = {:?}", min_max(x, y));
    ensure!(min_max(y, x) == (x.min(y), x.max(y)), "min-max", "min_max({y:?}, {x:?}) = {:?}", min_max(y, x));
    // quadratic with known roots
    let r = &mut c.rng;
    let (s1, s2, a) = (r.sign() * r.logrange(0.01, 100.0), r.sign() * r.logrange(0.01, 100.0), r.sign() * r.logrange(0.1, 10.0));
    let (b, cc) = (-a * (s1 + s2), a * s1 * s2);
    let disc = b * b - 4.0 * a * cc;
    if disc > 1e-6 && (s1 - s2).abs() > 1e-3 {
        let (g1, g2) = quadratic_solutions(a, b, cc, disc.sqrt());
        let (lo, hi) = (s1.min(s2), s1.max(s2));
        let (glo, ghi) = (g1.min(g2), g1.max(g2));
        let cond = 1e-11 * (s1.abs() + s2.abs()).powi(2) / (s1 - s2).abs();
        ensure!((glo - lo).abs() < cond + 1e-12 && (ghi - hi).abs() < cond + 1e-12, "quadratic", "roots {g1:?} {g2:?} must be {s1:?} {s2:?}");
        c.ev("quadratics", 1);
    }
    // roots of very different size: each one is accurate relative to its own size
    let r = &mut c.rng;
    let s1 = r.sign() * r.logrange(1e3, 1e6);
    let s2 = r.sign() * r.logrange(1e-6, 1e-2);
    let (b, cc) = (-a * (s1 + s2), a * s1 * s2);
    let disc = (b * b - 4.0 * a * cc).sqrt();
    let (g1, g2) = quadratic_solutions(a, b, cc, disc);
    let (gs, gl) = if g1.abs() < g2.abs() { (g1, g2) } else { (g2, g1) };
    ensure!((gs / s2 - 1.0).abs() < 1e-8 && (gl / s1 - 1.0).abs() < 1e-8, "quadratic", "roots {g1:?} {g2:?} must be {s1:?} {s2:?}");
    c.ev("far_roots", 1);
    Ok(())
}

/// polylines of dozens to hundreds of vertexes
fn c12_large(c: &mut Case) -> R {
    size_class(&mut c.rng);
    c12(c)
}
fn c13_large(c: &mut Case) -> R {
    size_class(&mut c.rng);
    c13(c)
}
fn c14_large(c: &mut Case) -> R {
    size_class(&mut c.rng);
    c14(c)
}
fn c15_large(c: &mut Case) -> R {
    size_class(&mut c.rng);
    c15(c)
}
fn c16_large(c: &mut Case) -> R {
    size_class(&mut c.rng);
    c16(c)
}
fn size_class(r: &mut Rng) {
    if r.chance(0.35) { r.fine = true } else { r.big = true }
}
fn main() {
    let wild_rule = "random polyline, open or closed, crossing itself, with repeated vertexes, zero length arcs, collinear and concentric runs, circles; ";
    let _ = wild_rule;
    cavc_monitor::rep::main(vec![
        Property {
            id: "C12",
            rule: "random polyline of any kind (self crossing, repeated vertexes, zero length arcs, multi turn circles) and its reversed, restarted, mirrored or moved copy; non-trivial with two or more segments; oracle: own closed forms",
            classes: vec![Class { name: "wild", quick: 400000, thorough: 8000000, f: c12 }, Class { name: "large", quick: 30000, thorough: 100000, f: c12_large },
            ],
            floors: vec![("measures", 400000), ("orientations", 100000), ("open_polylines", 50000)],
            rates: vec![],
        },
        Property {
            id: "C13",
            rule: "random polyline of any kind with its segment boxes, extents and spatial indexes, and shapes of several loops; non-trivial when it has arcs or several loops; oracle: own boxes, brute force box queries",
            classes: vec![
                Class { name: "wild", quick: 250000, thorough: 5000000, f: c13 },
                Class { name: "shape", quick: 30000, thorough: 600000, f: c13_shape }, Class { name: "large", quick: 30000, thorough: 100000, f: c13_large },
            ],
            floors: vec![("extents", 100000), ("segment_boxes", 500000), ("index_queries", 500000), ("shape_index_queries", 50000)],
            rates: vec![],
        },
        Property {
            id: "C14",
            rule: "random polyline of any kind with points off the curve: random, level with vertexes and arc extremes, on chords, close to the curve; non-trivial when the curve has an extent; oracle: sum of the signed angles",
            classes: vec![Class { name: "wild", quick: 250000, thorough: 6000000, f: c14 }, Class { name: "large", quick: 30000, thorough: 100000, f: c14_large },
            ],
            floors: vec![("windings", 1000000), ("multiple_windings", 20000), ("inside", 200000), ("aligned_points", 500000)],
            rates: vec![],
        },
        Property {
            id: "C15",
            rule: "random polyline of any kind with query points: random, on the curve, at arc centres, beyond the ends; non-trivial when not empty; oracle: analytic distance",
            classes: vec![Class { name: "wild", quick: 250000, thorough: 6000000, f: c15 }, Class { name: "large", quick: 30000, thorough: 100000, f: c15_large },
            ],
            floors: vec![("closest_points", 1000000), ("near_centers", 100000)],
            rates: vec![],
        },
        Property {
            id: "C16",
            rule: "random polyline of any kind with target lengths: negative, zero, vertex positions, the total, beyond, random; non-trivial when it has segments; oracle: own arc length parametrisation",
            classes: vec![Class { name: "wild", quick: 250000, thorough: 6000000, f: c16 }, Class { name: "large", quick: 30000, thorough: 100000, f: c16_large },
            ],
            floors: vec![("lookups", 1000000), ("refused", 100000)],
            rates: vec![],
        },
        Property {
            id: "C30",
            rule: "random segment: any placement, length 1e-3 to 1e3, sweep from almost flat to a half turn; oracle: closed forms of the circular arc",
            classes: vec![Class { name: "segment", quick: 500000, thorough: 10000000, f: c30 }],
            floors: vec![("arcs", 200000), ("splits", 500000), ("closest", 1000000)],
            rates: vec![],
        },
        Property {
            id: "C31",
            rule: "random arguments incl. multiples of a quarter turn with and without perturbation, grid points, differences around epsilon; oracle: independently computed value; within rounding of a boundary either answer",
            classes: vec![
                Class { name: "angles", quick: 400000, thorough: 10000000, f: c31_angles },
                Class { name: "points", quick: 400000, thorough: 10000000, f: c31_points },
                Class { name: "scalars", quick: 400000, thorough: 10000000, f: c31_scalars },
            ],
            floors: vec![("between", 100000), ("sweeps", 100000), ("sides", 100000), ("on_line", 5000), ("fuzzy_sides", 100000), ("cones", 100000), ("fuzzy_comparisons", 500000), ("quadratics", 100000), ("far_roots", 100000)],
            rates: vec![],
        },
    ])
}
