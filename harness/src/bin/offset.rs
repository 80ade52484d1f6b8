//! C04/C05 closed parallel offset, C06 open parallel offset, C07 options and self intersecting input
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::*;
use cavc_monitor::ensure;
use cavc_monitor::gen_::{self, Style};
use cavc_monitor::geom::*;
use cavc_monitor::lib_api::*;
use cavc_monitor::rep::*;
use cavc_monitor::rng::Rng;

#[derive(Clone)]
struct Job {
    pa: Path,
    d: f64,
    k: f64,
}

/// offset distance small enough to be interesting for an outline of this size
fn pick_d(r: &mut Rng, pa: &Path) -> f64 {
    let inr = pa.area().abs() / pa.len().max(1e-9) * 2.0;
    let s = r.sign();
    if r.chance(0.05) {
        return s * r.range(1.5, 6.0) * inr;
    }
    let d = match r.below(4) {
        0 => r.range(0.01, 0.2) * inr,
        1 | 2 => r.range(0.1, 1.1) * inr,
        _ => r.range(0.5, 2.0) * inr,
    };
    s * d.max(5e-3)
}

/// short segments are also offset by many times their length
fn wide_d(r: &mut Rng, d: f64) -> f64 {
    if r.fine && r.chance(0.3) { r.sign() * r.range(0.1, 2.0) } else { d }
}

/// Almost smooth joints at arcs that become tiny: the library takes a line or circle within its
/// position tolerance of a tangent one for tangent (documented), which moves the joint by as much
/// as these segments are long.
fn sticky_joints(pa: &Path, d: f64) -> bool {
    let n = pa.segs.len();
    let curv = |s: &Seg| match *s {
        Seg::L { .. } => (0.0, s.len()),
        Seg::A { r, sw, .. } => {
            let k = (r - d * sw.signum()).abs().max(1e-12);
            (sw.signum() / k, k * sw.abs())
        }
    };
    (0..n).any(|i| {
        let (s, t) = (&pa.segs[i], &pa.segs[(i + 1) % n]);
        if !pa.closed && i + 1 == n {
            return false;
        }
        let (u, w) = (s.tan(1.0), t.tan(0.0));
        let th = u.cross(w).abs();
        let ((k1, l1), (k2, l2)) = (curv(s), curv(t));
        let k = (k1 - k2).abs();
        th > 1e-9 && u.dot(w) > 0.0 && k > 1e-9 && th * th / (2.0 * k) < 3e-5 && th / k > 0.1 * l1.min(l2)
    })
}

/// a somewhat smaller distance without such joints, when there is one
fn unstick(r: &mut Rng, l: &[Path], d: f64) -> f64 {
    let bad = |d| l.iter().any(|x| sticky_joints(x, d));
    if !r.fine || !bad(d) {
        return d;
    }
    (0..12).map(|_| d * r.range(0.2, 0.95)).find(|&d| !bad(d)).unwrap_or(d)
}

fn job_general(r: &mut Rng) -> Job {
    let mut tries = 0;
    loop {
        tries += 1;
        let a = gen_::closed(r, Style::General, 0.08);
        let (v, k) = gen_::place(r, &[&a], (0.5, 20.0), 5.0);
        let pa = v.into_iter().next().unwrap();
        let d = pick_d(r, &pa);
        let d = wide_d(r, d);
        if r.fine && tries < 12 && sticky_joints(&pa, d) {
            continue;
        }
        return Job { pa, d, k };
    }
}
fn job_grid(r: &mut Rng) -> Job {
    let a = gen_::closed(r, Style::Grid, 0.05);
    let d = r.sign() * r.pick(&[0.05, 0.1, 0.125, 0.2, 0.25, 0.3, 0.4, 0.5, 0.6, 0.75, 1.0, 1.25, 1.5, 2.0]);
    if r.chance(0.3) {
        let (v, k) = gen_::place_near(r, &[&a], (0.5, 20.0), 3.0);
        return Job { pa: v.into_iter().next().unwrap(), d: d * k, k };
    }
    Job { pa: a, d, k: 1.0 }
}

fn sd(pa: &Path, ccw: bool, q: P) -> f64 {
    let dist = pa.dist(q);
    if pa.inside(q) == ccw { dist } else { -dist }
}

fn jtext(j: &Job) -> String {
    format!("offset {:?} {}", j.d, ptext(&j.pa))
}

/// largest extent of a piece that is attributed to the library's tolerances
const FRAGMENT: f64 = 0.02;

/// every point of every result loop lies exactly |d| away, on the requested side
fn soundness(c: &mut Case, j: &Job, res: &[PL], tol: f64) -> R {
    let ccw = j.pa.area() > 0.0;
    for pl in res {
        if !pl.is_closed() && path_of(pl).diag() < FRAGMENT * j.k.max(1.0) {
            // left over of the validity tolerance where the offset curve just touches itself
            c.ev("tolerance_sized_fragments", 1);
            continue;
        }
        ensure!(pl.is_closed(), "offset-open", "offset of a closed polyline returned an open polyline {}", text(&verts(pl), false));
        ensure!(finite(pl), "offset-nonfinite", "non finite vertex: {}", text(&verts(pl), true));
        ensure!(pl.vertex_count() >= 2, "offset-degenerate", "result with {} vertexes", pl.vertex_count());
        let pt = path_of(pl);
        for (i, s) in pt.segs.iter().enumerate() {
            for t in [0.0, 0.21, 0.5, 0.83] {
                let q = s.at(t);
                let dist = j.pa.dist(q);
                ensure!(
                    (dist - j.d.abs()).abs() <= tol,
                    "offset-distance",
                    "point ({:?},{:?}) on result segment {i} is {dist} from the input, must be {}",
                    q.x,
                    q.y,
                    j.d.abs()
                );
                if dist > 2.0 * tol {
                    let left = j.pa.inside(q) == ccw;
                    ensure!(left == (j.d > 0.0), "offset-side", "point ({:?},{:?}) on result segment {i} lies on the wrong side of the input", q.x, q.y);
                }
                c.ev("result_points", 1);
            }
        }
    }
    Ok(())
}

/// the loops bound exactly the set of points at signed distance >= d
fn membership(c: &mut Case, j: &Job, res: &[PL], m: f64, n: usize) -> R {
    let ccw = j.pa.area() > 0.0;
    let paths: Vec<Path> = res.iter().map(|r| path_of(r)).collect();
    let bb = j.pa.bbox();
    let ex = if j.d.abs() < j.pa.diag() { j.d.abs() * 1.3 } else { j.pa.diag() };
    let mut pts = vec![];
    for _ in 0..n {
        pts.push(p(c.rng.range(bb[0] - ex, bb[2] + ex), c.rng.range(bb[1] - ex, bb[3] + ex)));
    }
    // near the ideal offset curve of every segment, and beside every result segment
    for s in &j.pa.segs {
        for _ in 0..3 {
            let t = c.rng.f();
            let q = s.at(t) + s.tan(t).left() * j.d;
            let off = polar(p(0.0, 0.0), m * c.rng.range(1.2, 12.0), c.rng.range(0.0, 6.3));
            pts.push(q + off);
        }
        // around the end vertex
        let th = c.rng.range(0.0, 6.3);
        pts.push(polar(s.b(), j.d.abs() + c.rng.sign() * m * c.rng.range(1.2, 6.0), th));
    }
    for pa in &paths {
        for s in &pa.segs {
            let t = c.rng.f();
            let nrm = s.tan(t).left();
            let q = s.at(t);
            for sg in [1.0, -1.0] {
                pts.push(q + nrm * (sg * m * c.rng.range(1.2, 8.0)));
            }
        }
    }
    let mut ins = 0;
    for q in pts {
        let s = sd(&j.pa, ccw, q);
        if (s - j.d).abs() < m {
            c.ev("points_too_close_to_offset_curve", 1);
            continue;
        }
        let e = s >= j.d;
        let exp = e as i64 - if ccw { 0 } else { 1 };
        let got: i64 = paths.iter().map(|x| x.winding(q)).sum();
        ensure!(
            got == exp,
            "offset-membership",
            "point ({:?},{:?}) has signed distance {s} (offset {}), so the result loops must wind {exp} times around it, they wind {got} times",
            q.x,
            q.y,
            j.d
        );
        c.ev("membership_points", 1);
        if e == ccw {
            ins += 1;
        }
    }
    c.ev("membership_points_inside", ins);
    Ok(())
}


fn tol_for(j: &Job) -> f64 {
    // lengths are compared with fixed tolerances (1e-4, 1e-5) by the library
    8e-4 + 1e-9 * j.pa.max_abs()
}

type Check = fn(&mut Case, &Job) -> R;

/// General position: an offset distance is at a margin from the distances at which the result
/// changes (where pieces appear or vanish within the library's tolerances). Decided by looking at
/// two more distances: a deviation at one isolated distance only is counted, one at a second
/// distance is a violation.
fn shaken(c: &mut Case, j: &Job, f: Check) -> R {
    c.ev("cases", 1);
    let Err(e) = f(c, j) else { return Ok(()) };
    let bad = |c: &mut Case, k: f64| {
        let mut j2 = j.clone();
        j2.d *= k;
        f(c, &j2).is_err()
    };
    if (bad(c, 1.0 - 4e-3) || bad(c, 1.0 + 4e-3)) && (bad(c, 1.0 - 1.5e-2) || bad(c, 1.0 + 1.5e-2)) {
        return Err(e);
    }
    c.soft("isolated_deviations", e);
    Ok(())
}

fn note(c: &mut Case, res: &[PL]) {
    if res.is_empty() {
        c.ev("collapsed", 1);
    } else {
        c.nontrivial();
        c.ev("nonempty_results", 1);
        if res.len() > 1 {
            c.ev("split_results", 1);
        }
    }
}

fn c04_check(c: &mut Case, j: &Job) -> R {
    let res = to_pl(&j.pa.v, true).parallel_offset(j.d);
    note(c, &res);
    soundness(c, j, &res, tol_for(j))
}
fn c05_check(c: &mut Case, j: &Job) -> R {
    let res = to_pl(&j.pa.v, true).parallel_offset(j.d);
    note(c, &res);
    membership(c, j, &res, 3e-3 * j.k.max(0.5), 40)
}
fn c04_general(c: &mut Case) -> R {
    let j = job_general(&mut c.rng);
    c.input(jtext(&j));
    shaken(c, &j, c04_check)
}
fn c04_grid(c: &mut Case) -> R {
    let j = job_grid(&mut c.rng);
    c.input(jtext(&j));
    c04_check(c, &j)
}
fn c05_general(c: &mut Case) -> R {
    let j = job_general(&mut c.rng);
    c.input(jtext(&j));
    shaken(c, &j, c05_check)
}
fn c05_grid(c: &mut Case) -> R {
    let j = job_grid(&mut c.rng);
    c.input(jtext(&j));
    c05_check(c, &j)
}

/// inputs that once failed (see known_findings.jsonl) and other hand picked ones
const CORPUS: &[(f64, &str)] = &[
    (-0.5, "closed[(1,2,0) (0,2,0) (0,2.75,0) (0,3,0) (1,3,0)]"),
    (-1.0, "closed[(3,0,0) (0,0,0) (0,1,0) (1,1,0) (1,2,0) (3,2,0)]"),
    (-0.5, "closed[(1,1,0) (1,0,0) (0,0,0) (0,0.75,-0.41421356237309503) (0.25,1,0)]"),
    (1.0, "closed[(0,0,0) (2,0,0) (2,3,0) (1,3,0) (1,2,0) (0,2,0)]"),
    (-1.5237569026623725, "closed[(-4.118443065258795,6.470608801011117,0) (-3.0313306625296343,7.538326798538394,0) (-1.9442182598004738,8.606044796065671,0) (-0.8765002622731968,7.518932393336511,0) (0.21061214045596377,8.586650390863788,0) (2.3460481355105176,6.412425585405467,0) (0.17182333005219674,4.2769895903509125,0) (-0.8958946674750804,5.364101993080073,0) (-1.983007070204241,4.296383995552796,0)]"),
    (0.25, "closed[(0,0,1) (1,0,1)]"),
    (-0.25, "closed[(0,0,1) (1,0,1)]"),
    (0.5, "closed[(0,0,1) (1,0,1)]"),
    (0.7, "closed[(0,0,0) (10,0,0) (10,1,0) (0,1,0)]"),
    (0.4, "closed[(0,0,0) (10,0,0) (10,1,0) (0,1,0)]"),
    (1.0, "closed[(0,0,0) (4,0,0) (4,4,0) (2.5,4,0) (2.5,2,0) (1.5,2,0) (1.5,4,0) (0,4,0)]"),
    (-0.5, "closed[(0,0,0) (4,0,0) (4,4,0) (2.5,4,0) (2.5,2,0) (1.5,2,0) (1.5,4,0) (0,4,0)]"),
    // tessellated small circle
    (-1.0, "closed[(0.04,0,0) (0.0395075336238,0.00625737860161,0) (0.0380422606518,0.012360679775,0) (0.0356402609675,0.0181596199896,0) (0.032360679775,0.0235114100917,0) (0.0282842712475,0.0282842712475,0) (0.0235114100917,0.032360679775,0) (0.0181596199896,0.0356402609675,0) (0.012360679775,0.0380422606518,0) (0.00625737860161,0.0395075336238,0) (2.44929359829e-18,0.04,0) (-0.00625737860161,0.0395075336238,0) (-0.012360679775,0.0380422606518,0) (-0.0181596199896,0.0356402609675,0) (-0.0235114100917,0.032360679775,0) (-0.0282842712475,0.0282842712475,0) (-0.032360679775,0.0235114100917,0) (-0.0356402609675,0.0181596199896,0) (-0.0380422606518,0.012360679775,0) (-0.0395075336238,0.00625737860161,0) (-0.04,4.89858719659e-18,0) (-0.0395075336238,-0.00625737860161,0) (-0.0380422606518,-0.012360679775,0) (-0.0356402609675,-0.0181596199896,0) (-0.032360679775,-0.0235114100917,0) (-0.0282842712475,-0.0282842712475,0) (-0.0235114100917,-0.032360679775,0) (-0.0181596199896,-0.0356402609675,0) (-0.012360679775,-0.0380422606518,0) (-0.00625737860161,-0.0395075336238,0) (-7.34788079488e-18,-0.04,0) (0.00625737860161,-0.0395075336238,0) (0.012360679775,-0.0380422606518,0) (0.0181596199896,-0.0356402609675,0) (0.0235114100917,-0.032360679775,0) (0.0282842712475,-0.0282842712475,0) (0.032360679775,-0.0235114100917,0) (0.0356402609675,-0.0181596199896,0) (0.0380422606518,-0.012360679775,0) (0.0395075336238,-0.00625737860161,0)]"),
];
fn corpus_job(c: &mut Case) -> Job {
    let (d, t) = CORPUS[c.idx as usize % CORPUS.len()];
    let (v, cl) = parse(t).unwrap();
    let j = Job { pa: Path::new(v, cl), d, k: 1.0 };
    c.input(jtext(&j));
    j
}
fn c04_corpus(c: &mut Case) -> R {
    let j = corpus_job(c);
    c04_check(c, &j)
}
fn c05_corpus(c: &mut Case) -> R {
    let j = corpus_job(c);
    c05_check(c, &j)
}

// ---------------------------------------------------------------- C06 open polylines

fn job_open(r: &mut Rng, style: Style, simple: bool) -> Job {
    let a = gen_::open(r, style, simple, 0.08);
    if style == Style::Grid {
        let d = r.sign() * r.pick(&[0.05, 0.1, 0.125, 0.2, 0.25, 0.3, 0.4, 0.5, 0.6, 0.75, 1.0, 1.25, 1.5, 2.0]);
        if r.chance(0.3) {
            let (v, k) = gen_::place_near(r, &[&a], (0.5, 20.0), 3.0);
            return Job { pa: v.into_iter().next().unwrap(), d: d * k, k };
        }
        return Job { pa: a, d, k: 1.0 };
    }
    let (v, k) = gen_::place(r, &[&a], (0.5, 20.0), 5.0);
    let pa = v.into_iter().next().unwrap();
    let d = mixed_d(r, 4.0) * k;
    let d = wide_d(r, d);
    let d = unstick(r, std::slice::from_ref(&pa), d);
    Job { pa, d, k }
}

fn open_sound(c: &mut Case, j: &Job, res: &[PL], tol: f64, sided: bool) -> R {
    let n = j.pa.segs.len();
    for pl in res {
        ensure!(finite(pl), "offset-nonfinite", "non finite vertex: {}", text(&verts(pl), true));
        ensure!(pl.vertex_count() >= 2, "offset-degenerate", "result with {} vertexes", pl.vertex_count());
        let pt = path_of(pl);
        if pt.diag() < FRAGMENT * j.k.max(1.0) {
            c.ev("tolerance_sized_fragments", 1);
            continue;
        }
        for (i, s) in pt.segs.iter().enumerate() {
            for t in [0.03, 0.21, 0.5, 0.83, 0.97] {
                let q = s.at(t);
                let (si, st, dist) = j.pa.closest(q);
                ensure!(
                    (dist - j.d.abs()).abs() <= tol,
                    "offset-distance",
                    "point ({:?},{:?}) on result segment {i} is {dist} from the input, must be {}",
                    q.x,
                    q.y,
                    j.d.abs()
                );
                c.ev("result_points", 1);
                if !sided || s.len() < 1e-2 * j.k {
                    continue;
                }
                // some feature at that distance has the point on its requested side (an end point of
                // the polyline only straight across from it)
                let mut best = f64::MIN;
                let mut applies = false;
                for (k, is) in j.pa.segs.iter().enumerate() {
                    let (kt, kd) = is.closest(q);
                    if kd > dist + 2.0 * tol {
                        continue;
                    }
                    applies = true;
                    let tt = kt.clamp(0.0, 1.0);
                    let out = (q - is.at(tt)).unit();
                    let off = is.tan(tt).left().dot(out) * j.d.signum();
                    let end = (k == 0 && tt < 1e-9) || (k == n - 1 && tt > 1.0 - 1e-9);
                    let need = if end { (1.0 - 1e-3 - 2.0 * tol / j.d.abs()).min(0.9) } else { 0.0 };
                    best = best.max(off - need);
                }
                if applies {
                    ensure!(
                        best > 0.0,
                        "offset-side",
                        "point ({:?},{:?}) on result segment {i} is not on the requested side of the input (cosine {best})",
                        q.x,
                        q.y
                    );
                    c.ev("side_points", 1);
                }
                let tt = st.clamp(0.0, 1.0);
                let tan = j.pa.segs[si].tan(tt);
                let mid = tt > 1e-6 && tt < 1.0 - 1e-6;
                // clear of every other part: the result runs along in the input's direction
                if mid && j.pa.segs.iter().enumerate().all(|(k, o)| k == si || o.dist(q) > j.d.abs() + 2.0 * tol) {
                    let dir = s.tan(t).dot(tan);
                    // inner offsets of arcs keep their direction as long as they are not inverted
                    ensure!(
                        dir > 0.5,
                        "offset-direction",
                        "result segment {i} at ({:?},{:?}) runs against input segment {si} (cosine {dir})",
                        q.x,
                        q.y
                    );
                    c.ev("direction_points", 1);
                }
            }
        }
    }
    Ok(())
}

/// every clearly valid point of the parallel curve (segments and the arcs around convex corners)
/// appears in the result
fn open_complete(c: &mut Case, j: &Job, res: &[PL], tol: f64) -> R {
    let paths: Vec<Path> = res.iter().map(|r| path_of(r)).collect();
    let n = j.pa.segs.len();
    let d = j.d;
    let slack = 3e-3 * j.k.max(0.5);
    let mut cand: Vec<(P, usize, Option<usize>)> = vec![];
    for (i, s) in j.pa.segs.iter().enumerate() {
        for _ in 0..6 {
            let t = c.rng.f();
            cand.push((s.at(t) + s.tan(t).left() * d, i, None));
        }
        if i + 1 < n {
            // fan of directions around the corner on the requested side
            let (t0, t1) = (s.tan(1.0).left() * d, j.pa.segs[i + 1].tan(0.0).left() * d);
            for _ in 0..3 {
                let w = c.rng.f();
                let m = t0 * (1.0 - w) + t1 * w;
                if m.len() < 0.2 * d.abs() {
                    continue;
                }
                cand.push((s.b() + m.unit() * d.abs(), i, Some(i + 1)));
            }
        }
    }
    let (a, b) = (j.pa.segs[0].a(), j.pa.segs[n - 1].b());
    for (q, i, other) in cand {
        // robustly valid: nothing but the generating feature is near |d|
        let own = j.pa.segs[i].dist(q).min(other.map_or(f64::MAX, |o| j.pa.segs[o].dist(q)));
        if (own - d.abs()).abs() > 1e-7 * j.k {
            continue;
        }
        let clear = j.pa.segs.iter().enumerate().all(|(k, o)| k == i || Some(k) == other || o.dist(q) > d.abs() + slack)
            && (i == 0 || a.dist(q) > d.abs() + slack)
            && (i == n - 1 || b.dist(q) > d.abs() + slack);
        // the neighbours share a corner with the generating segment: clear of it too
        if !clear {
            c.ev("unclear_candidates", 1);
            continue;
        }
        if other.is_none() && (q.dist(a) < d.abs() + slack || q.dist(b) < d.abs() + slack) {
            continue;
        }
        let got = paths.iter().map(|x| x.dist(q)).fold(f64::MAX, f64::min);
        ensure!(
            got <= tol,
            "offset-missing",
            "point ({:?},{:?}) at exactly {} from input segment {i} and clear of all others is {got} away from the result",
            q.x,
            q.y,
            d
        );
        c.ev("completeness_points", 1);
    }
    Ok(())
}

fn c06_check(c: &mut Case, j: &Job) -> R {
    let res = to_pl(&j.pa.v, false).parallel_offset(j.d);
    note(c, &res);
    open_sound(c, j, &res, tol_for(j), true)?;
    // where the curve grazes the validity tolerance a whole piece may be dropped: base rate, see rates
    if let Err(e) = open_complete(c, j, &res, tol_for(j)) {
        c.soft("incomplete_results", e);
    }
    c.ev("completeness_cases", 1);
    Ok(())
}
fn c06_general(c: &mut Case) -> R {
    let j = job_open(&mut c.rng, Style::General, true);
    c.input(jtext(&j));
    shaken(c, &j, c06_check)
}
fn c06_grid(c: &mut Case) -> R {
    let j = job_open(&mut c.rng, Style::Grid, true);
    c.input(jtext(&j));
    c06_check(c, &j)
}
const OPEN_CORPUS: &[(f64, &str)] = &[
    (-0.5, "open[(-1,3,0) (-2,3,0) (-2,5,0) (-3,5,0) (-4,6,-1) (-2,6,0) (-3,6,-0.5)]"),
    (-1.0, "open[(0,0,0) (-1,0,0) (-1,1,0) (0,1,0) (1,1,0.41421356237309503) (2,2,0)]"),
    (0.021431147573717696, "open[(-5.064205958921327,-3.4940597727789386,-0.16630320539006438) (-3.6441893791153195,-3.3326999244934337,-0.6616647334036401) (-3.7830056658099096,-1.4991980273910783,0.0) (-6.059344713995918,2.329028022965542,0.9994199852591156) (-9.528592604476682,0.40092827243528195,0.4851511386916197) (-13.005014919452783,-0.3491956342846054,0.0) (-14.526889682810921,-2.332506239945265,0.4645036767097091) (-16.321649530090163,-4.666825974213623,-0.5277838573761993) (-12.089129023244508,-5.0048984167492,0.1377125452432778)]"),
    (0.5, "open[(0,0,0) (4,0,0) (4,3,0) (1,3,0) (1,1,0) (3,1,0)]"),
    (1.0, "open[(0,0,0) (4,0,0) (4,4,0) (2,4,0) (2,2,0)]"),
    (0.25, "open[(0,0,0) (1,0,0) (1,1,0) (0.5,1,0) (0.5,0.5,0)]"),
];
fn c06_corpus(c: &mut Case) -> R {
    let (d, t) = OPEN_CORPUS[c.idx as usize % OPEN_CORPUS.len()];
    let (v, cl) = parse(t).unwrap();
    let j = Job { pa: Path::new(v, cl), d, k: 1.0 };
    c.input(jtext(&j));
    let r = c06_check(c, &j);
    // a corpus case is decided one by one: its soft deviations are hard
    c.harden(r)
}
/// Pieces are accepted by probing points on them, so where the input crosses itself a shallow dip
/// into another part's range can pass now and then: those are counted against a rate, a deep one
/// is a violation.
fn dips(c: &mut Case, j: &Job, res: &[PL]) -> R {
    open_sound(c, j, res, tol_for(j) + 0.05 * j.k.max(j.d.abs()), false)?;
    c.ev("crossing_cases", 1);
    if let Err(e) = open_sound(c, j, res, tol_for(j) + 0.005 * j.k, false) {
        c.soft("shallow_dips", e);
    }
    Ok(())
}
fn c06_crossing_check(c: &mut Case, j: &Job) -> R {
    let res = to_pl(&j.pa.v, false).parallel_offset(j.d);
    note(c, &res);
    dips(c, j, &res)
}
fn c06_crossing(c: &mut Case) -> R {
    let j = job_open(&mut c.rng, Style::General, false);
    c.input(jtext(&j));
    shaken(c, &j, c06_crossing_check)
}

// ---------------------------------------------------------------- C07 options

fn same_sets(c: &mut Case, a: &[PL], b: &[PL], tol: f64, what: &str) -> R {
    let (pa, pb): (Vec<Path>, Vec<Path>) = (a.iter().map(|x| path_of(x)).collect(), b.iter().map(|x| path_of(x)).collect());
    for (x, y, w) in [(&pa, &pb, "only without"), (&pb, &pa, "only with")] {
        for q in x.iter().flat_map(|q| q.segs.iter()) {
            for t in [0.0, 0.37, 0.5] {
                let z = q.at(t);
                let d = y.iter().map(|o| o.dist(z)).fold(f64::MAX, f64::min);
                ensure!(d <= tol, "option-changes-result", "point ({:?},{:?}) is in the result {w} {what} ({d} away)", z.x, z.y);
                c.ev("compared_points", 1);
            }
        }
    }
    ensure!(
        pa.iter().filter(|x| x.closed).count() == pb.iter().filter(|x| x.closed).count(),
        "option-changes-result",
        "number of closed results differs with {what}"
    );
    Ok(())
}

fn c07_index(c: &mut Case) -> R {
    let st = if c.rng.chance(0.5) { Style::Grid } else { Style::General };
    let closed = c.rng.chance(0.6);
    let j = if !closed {
        job_open(&mut c.rng, st, true)
    } else if st == Style::Grid {
        job_grid(&mut c.rng)
    } else {
        job_general(&mut c.rng)
    };
    c.input(jtext(&j));
    let pl = to_pl(&j.pa.v, closed);
    let base = pl.parallel_offset(j.d);
    note(c, &base);
    for (idx, what) in [(pl.create_approx_aabb_index(), "a caller supplied approximate index"), (pl.create_aabb_index(), "a caller supplied exact index")] {
        let o = PlineOffsetOptions { aabb_index: Some(&idx), ..Default::default() };
        let r = pl.parallel_offset_opt(j.d, &o);
        same_sets(c, &base, &r, 1e-7 * j.pa.max_abs().max(1.0), what)?;
    }
    Ok(())
}
fn c07_flag_check(c: &mut Case, j: &Job) -> R {
    let o = PlineOffsetOptions { handle_self_intersects: true, ..Default::default() };
    let res = to_pl(&j.pa.v, true).parallel_offset_opt(j.d, &o);
    note(c, &res);
    soundness(c, j, &res, tol_for(j))?;
    membership(c, j, &res, 3e-3 * j.k.max(0.5), 30)
}
fn c07_flag(c: &mut Case) -> R {
    let j = if c.rng.chance(0.4) { job_grid(&mut c.rng) } else { job_general(&mut c.rng) };
    c.input(jtext(&j));
    shaken(c, &j, c07_flag_check)
}
/// closed curve that crosses itself
fn job_crossing(r: &mut Rng) -> Job {
    loop {
        let n = r.int(4, 9) as usize;
        let parc = r.pick(&[0.0, 0.3, 0.6]);
        let v: Vec<V> = (0..n)
            .map(|_| {
                let b = if r.chance(parc) { r.sign() * r.range(0.05, 0.9) } else { 0.0 };
                [r.range(-5.0, 5.0), r.range(-5.0, 5.0), b]
            })
            .collect();
        let pa = Path::new(v, true);
        if pa.segs.iter().any(|s| s.len() < 0.2) || is_simple(&pa, 1e-3) {
            continue;
        }
        let k = r.logrange(0.5, 10.0);
        let pa = Path::new(transform(&pa.v, k, r.range(0.0, 6.28), 0.0, 0.0), true);
        let d = r.sign() * r.range(0.05, 2.5) * k;
        return Job { pa, d, k };
    }
}
fn c07_crossing_check(c: &mut Case, j: &Job) -> R {
    let o = PlineOffsetOptions { handle_self_intersects: true, ..Default::default() };
    let res = to_pl(&j.pa.v, true).parallel_offset_opt(j.d, &o);
    note(c, &res);
    dips(c, j, &res)
}
fn c07_crossing(c: &mut Case) -> R {
    let j = job_crossing(&mut c.rng);
    c.input(jtext(&j));
    shaken(c, &j, c07_crossing_check)
}
/// debug assertions of the library that compare with a fixed tolerance instead of the caller's
fn fixed_tolerance(m: &str) -> bool {
    m.contains("pline_view.rs") || m.contains("v1 must not be on top of v2")
}
/// the same drawing in other units, with the tolerances in the same units, has the same offset
fn c07_units(c: &mut Case) -> R {
    let closed = c.rng.chance(0.6);
    let j = if closed { job_general(&mut c.rng) } else { job_open(&mut c.rng, Style::General, true) };
    let u = c.rng.pick(&[4.0, 64.0, 1024.0, 0.25, 1.0 / 256.0, 1.0 / 4096.0]);
    c.input(format!("units {u:?} {}", jtext(&j)));
    let hs = c.rng.chance(0.5);
    let v2: Vec<V> = j.pa.v.iter().map(|q| [q[0] * u, q[1] * u, q[2]]).collect();
    let (p1, p2) = (to_pl(&j.pa.v, closed), to_pl(&v2, closed));
    let d0 = PlineOffsetOptions::<f64>::default();
    let o1 = PlineOffsetOptions { handle_self_intersects: hs, ..Default::default() };
    let o2 = PlineOffsetOptions {
        handle_self_intersects: hs,
        pos_equal_eps: d0.pos_equal_eps * u,
        slice_join_eps: d0.slice_join_eps * u,
        offset_dist_eps: d0.offset_dist_eps * u,
        ..Default::default()
    };
    let r1 = p1.parallel_offset_opt(j.d, &o1);
    let r2 = match catching(|| p2.parallel_offset_opt(j.d * u, &o2)) {
        Ok(r) => r,
        Err(m) if fixed_tolerance(&m) => {
            // the debug build's view validation has fixed tolerances that ignore the caller's
            c.ev("fixed_debug_tolerance_hits", 1);
            c.skip();
            return Ok(());
        }
        Err(m) => return fail("panic", m),
    };
    note(c, &r1);
    let back: Vec<PL> = r2
        .iter()
        .map(|x| {
            let v: Vec<V> = verts(x).iter().map(|q| [q[0] / u, q[1] / u, q[2]]).collect();
            to_pl(&v, x.is_closed())
        })
        .collect();
    c.ev("unit_cases", 1);
    if let Err(e) = same_sets(c, &r1, &back, tol_for(&j), "scaled tolerances") {
        c.soft("unit_deviations", e);
    }
    Ok(())
}

// ---------------------------------------------------------------- C08 shapes

struct ShapeJob {
    loops: Vec<Path>,
    d: f64,
    k: f64,
}

/// nested loops: outlines counter clockwise, holes clockwise, islands in holes counter clockwise
fn gen_shape(r: &mut Rng, style: Style, m: f64) -> Vec<Path> {
    let mut loops: Vec<Path> = vec![];
    let place_in = |r: &mut Rng, q: &Path, ccw: bool, cx: P, size: f64, grid: bool| -> Path {
        let bb = q.bbox();
        let c = p((bb[0] + bb[2]) * 0.5, (bb[1] + bb[3]) * 0.5);
        let (k, rot) = if grid { (1.0, 0.0) } else { (size / q.diag(), r.range(0.0, 6.28)) };
        let moved: Vec<V> = q.v.iter().map(|v| [v[0] - c.x, v[1] - c.y, v[2]]).collect();
        let (tx, ty) = if grid {
            // stay on the half unit lattice
            ((cx.x * 2.0).round() / 2.0 + c.x - c.x.floor(), (cx.y * 2.0).round() / 2.0 + c.y - c.y.floor())
        } else {
            (cx.x, cx.y)
        };
        let v = transform(&moved, k, rot, tx, ty);
        let pa = Path::new(v, true);
        if (pa.area() > 0.0) == ccw { pa } else { Path::new(reverse(&pa.v, true), true) }
    };
    let grid = style == Style::Grid;
    let outer = if grid {
        let (w, h) = (r.int(5, 12) as f64, r.int(5, 10) as f64);
        let v = gen_::rect(0.0, 0.0, w, h);
        let v = if r.chance(0.4) { gen_::fillet(r, &v, 1.0, 0.6) } else { v };
        Path::new(v, true)
    } else {
        let q = gen_::closed(r, style, m);
        place_in(r, &q, true, p(0.0, 0.0), 20.0, false)
    };
    let bb = outer.bbox();
    loops.push(if outer.area() > 0.0 { outer } else { Path::new(reverse(&outer.v, true), true) });
    let tries = r.int(2, 14);
    for _ in 0..tries {
        let q = if grid {
            match r.below(4) {
                0 => Path::new(gen_::rect(0.0, 0.0, r.int(1, 3) as f64, r.int(1, 3) as f64), true),
                1 => Path::new(gen_::circle(p(0.0, 0.0), r.pick(&[0.5, 1.0, 1.5]), r.pick(&[0.0, 1.5707963267948966]), r.int(2, 4) as usize), true),
                _ => gen_::closed(r, style, 0.05),
            }
        } else {
            gen_::closed(r, style, 0.08)
        };
        let cx = if r.chance(0.15) {
            // a second outline outside
            p(bb[2] + r.range(0.5, 8.0), r.range(bb[1], bb[3]))
        } else {
            p(r.range(bb[0], bb[2]), r.range(bb[1], bb[3]))
        };
        let size = r.range(1.5, 8.0);
        let ccw0 = true;
        let pa = place_in(r, &q, ccw0, cx, size, grid);
        let gap = if grid { 0.2 } else { 0.15 };
        let mut ok = true;
        for o in &loops {
            if box_gap(&o.bbox(), &pa.bbox()) > gap {
                continue;
            }
            for s in &pa.segs {
                for t in &o.segs {
                    if seg_seg_dist(s, t) < gap {
                        ok = false;
                    }
                }
            }
            // the new loop must not enclose an existing one
            if ok && pa.inside(o.pos(0)) {
                ok = false;
            }
            if !ok {
                break;
            }
        }
        if !ok {
            continue;
        }
        let depth = loops.iter().filter(|o| o.inside(pa.pos(0))).count();
        if depth > 3 {
            continue;
        }
        let pa = if depth % 2 == 1 { Path::new(reverse(&pa.v, true), true) } else { pa };
        loops.push(pa);
    }
    loops
}

fn job_shape(r: &mut Rng, style: Style) -> ShapeJob {
    let l = gen_shape(r, style, 0.08);
    if style == Style::Grid {
        let d = r.sign() * r.pick(&[0.05, 0.1, 0.2, 0.25, 0.3, 0.45, 0.5, 0.6, 0.75, 1.0, 1.25, 1.5]);
        if r.chance(0.4) {
            let refs: Vec<&Path> = l.iter().collect();
            let (v, k) = gen_::place_near(r, &refs, (0.5, 10.0), 2.0);
            return ShapeJob { loops: v, d: d * k, k };
        }
        return ShapeJob { loops: l, d, k: 1.0 };
    }
    let refs: Vec<&Path> = l.iter().collect();
    // loops are short already
    let scale = if r.fine { (5.0, 20.0) } else { (0.5, 8.0) };
    let (v, k) = gen_::place(r, &refs, scale, 3.0);
    let d = mixed_d(r, 2.5) * k;
    let d = wide_d(r, d);
    let d = unstick(r, &v, d);
    ShapeJob { loops: v, d, k }
}
fn shape_text(j: &ShapeJob) -> String {
    format!("shape offset {:?} {}", j.d, j.loops.iter().map(ptext).collect::<Vec<_>>().join(" + "))
}
fn shape_check(c: &mut Case, j: &ShapeJob, order: u64) -> R {
    let mut idx: Vec<usize> = (0..j.loops.len()).collect();
    Rng::new(order).shuffle(&mut idx);
    let shape = Shape::from_plines(idx.iter().map(|&i| to_pl(&j.loops[i].v, true)));
    let nccw = j.loops.iter().filter(|l| l.area() > 0.0).count();
    ensure!(
        shape.ccw_plines.len() == nccw && shape.cw_plines.len() == j.loops.len() - nccw,
        "shape-build",
        "shape has {}+{} loops, expected {}+{}",
        shape.ccw_plines.len(),
        shape.cw_plines.len(),
        nccw,
        j.loops.len() - nccw
    );
    let res = match catching(|| shape.parallel_offset(j.d, ShapeOffsetOptions::new())) {
        Ok(r) => r,
        Err(m) if m.contains("pline_view.rs") => {
            c.soft("view_validation_hits", Fail { kind: "panic".into(), msg: m });
            return Ok(());
        }
        Err(m) => return fail("panic", m),
    };
    let mut paths: Vec<Path> = vec![];
    let max_abs = j.loops.iter().map(|l| l.max_abs()).fold(0.0, f64::max);
    let tol = 8e-4 + 1e-9 * max_abs;
    let dist = |q: P| j.loops.iter().map(|l| l.dist(q)).fold(f64::MAX, f64::min);
    let fill = |q: P| -> i64 { j.loops.iter().map(|l| l.winding(q)).sum() };
    for (list, ccw) in [(&res.ccw_plines, true), (&res.cw_plines, false)] {
        for (pos, ip) in list.iter().enumerate() {
            let pl = &ip.polyline;
            ensure!(finite(pl), "shape-nonfinite", "non finite vertex");
            let pt = path_of(pl);
            if pt.diag() < FRAGMENT * j.k.max(1.0) {
                c.ev("tolerance_sized_fragments", 1);
                paths.push(pt);
                continue;
            }
            ensure!(pl.is_closed(), "shape-open", "offset of a shape contains an open polyline {}", text(&verts(pl), false));
            if pt.area().abs() < tol * pt.len() {
                // exactly collapsed: neither orientation, winds around nothing
                c.ev("zero_area_loops", 1);
                continue;
            }
            ensure!((pt.area() > 0.0) == ccw, "shape-orientation", "loop with area {} listed with the {} loops", pt.area(), if ccw { "counter clockwise" } else { "clockwise" });
            for (i, s) in pt.segs.iter().enumerate() {
                for t in [0.0, 0.3, 0.5, 0.8] {
                    let q = s.at(t);
                    let dd = dist(q);
                    ensure!((dd - j.d.abs()).abs() <= tol, "shape-distance", "point ({:?},{:?}) on result segment {i} is {dd} from the shape boundary, must be {}", q.x, q.y, j.d.abs());
                    if dd > 2.0 * tol {
                        ensure!((fill(q) == 1) == (j.d > 0.0), "shape-side", "point ({:?},{:?}) lies on the wrong side of the boundary", q.x, q.y);
                    }
                    c.ev("result_points", 1);
                }
            }
            // the loop's own index covers it
            let b = pt.bbox();
            if let Some(ib) = ip.spatial_index.bounds() {
                let e = 1e-9 * max_abs.max(1.0);
                ensure!(ib.min_x <= b[0] + e && ib.min_y <= b[1] + e && ib.max_x >= b[2] - e && ib.max_y >= b[3] - e, "shape-index", "index bounds of a result loop do not cover it");
            } else {
                return fail("shape-index", "result loop without index bounds".into());
            }
            // the index of the result answers with the position in ccw loops followed by cw loops
            let at = if ccw { 0 } else { res.ccw_plines.len() } + pos;
            let e = 1e-9 * max_abs.max(1.0);
            for (x, y) in [(b[0], b[1]), (b[2], b[3])] {
                let hit = res.plines_index.query(x - 2.0 * e, y - 2.0 * e, x + 2.0 * e, y + 2.0 * e);
                ensure!(hit.contains(&at), "shape-index", "the shape's index misses result loop {at} at ({x:?},{y:?}): {hit:?}");
                c.ev("shape_index_queries", 1);
            }
            paths.push(pt);
        }
    }
    ensure!(res.plines_index.count() == res.ccw_plines.len() + res.cw_plines.len(), "shape-index", "{} boxes for {} + {} loops", res.plines_index.count(), res.ccw_plines.len(), res.cw_plines.len());
    if !paths.is_empty() {
        c.nontrivial();
        c.ev("nonempty_results", 1);
        if paths.len() < j.loops.len() {
            c.ev("merged_or_vanished_loops", 1);
        }
        if paths.len() > j.loops.len() {
            c.ev("split_loops", 1);
        }
    }
    // membership
    let m = 3e-3 * j.k.max(0.5);
    let mut pts = vec![];
    for l in &j.loops {
        let bb = l.bbox();
        let ex = j.d.abs() * 1.3;
        for _ in 0..10 {
            pts.push(p(c.rng.range(bb[0] - ex, bb[2] + ex), c.rng.range(bb[1] - ex, bb[3] + ex)));
        }
        for s in &l.segs {
            for _ in 0..2 {
                let t = c.rng.f();
                let q = s.at(t) + s.tan(t).left() * j.d;
                pts.push(q + polar(p(0.0, 0.0), m * c.rng.range(1.2, 12.0), c.rng.range(0.0, 6.3)));
            }
        }
    }
    for pa in &paths {
        for s in &pa.segs {
            let t = c.rng.f();
            let (nrm, q) = (s.tan(t).left(), s.at(t));
            for sg in [1.0, -1.0] {
                pts.push(q + nrm * (sg * m * c.rng.range(1.2, 8.0)));
            }
        }
    }
    for q in pts {
        let f = fill(q);
        let s = if f == 1 { dist(q) } else { -dist(q) };
        if (s - j.d).abs() < m {
            continue;
        }
        let exp = (s >= j.d) as i64;
        let got: i64 = paths.iter().map(|x| x.winding(q)).sum();
        ensure!(got == exp, "shape-membership", "point ({:?},{:?}) has signed distance {s} to the shape boundary (offset {}), expected winding {exp}, result loops wind {got} times", q.x, q.y, j.d);
        c.ev("membership_points", 1);
        c.ev("membership_points_inside", exp as u64);
    }
    Ok(())
}
fn c08_general(c: &mut Case) -> R {
    c08_run(c, Style::General)
}
fn c08_grid(c: &mut Case) -> R {
    c08_run(c, Style::Grid)
}
fn c08_run(c: &mut Case, st: Style) -> R {
    let j = job_shape(&mut c.rng, st);
    c.input(shape_text(&j));
    c.ev("cases", 1);
    if j.loops.len() > 1 {
        c.ev("multi_loop_shapes", 1);
    }
    let o = c.rng.u64();
    let Err(e) = shape_check(c, &j, o) else { return Ok(()) };
    let bad = |c: &mut Case, k: f64| {
        let j2 = ShapeJob { loops: j.loops.clone(), d: j.d * k, k: j.k };
        shape_check(c, &j2, o).is_err()
    };
    let b = [1.0 - 4e-3, 1.0 + 4e-3, 1.0 - 1.5e-2, 1.0 + 1.5e-2].map(|k| bad(c, k));
    // critical distances are dense when there are hundreds of segments
    let hard = if c.rng.big { b == [true; 4] } else { (b[0] || b[1]) && (b[2] || b[3]) };
    if hard {
        return Err(e);
    }
    c.soft("isolated_deviations", e);
    Ok(())
}
/// the same drawing in other units, with the tolerances in the same units, has the same offset
fn c08_units(c: &mut Case) -> R {
    let st = if c.rng.chance(0.5) { Style::General } else { Style::Grid };
    let j = job_shape(&mut c.rng, st);
    let u = c.rng.pick(&[4.0, 64.0, 1024.0, 0.25, 1.0 / 256.0, 1.0 / 4096.0]);
    c.input(format!("units {u:?} {}", shape_text(&j)));
    c.ev("unit_cases", 1);
    let s1 = Shape::from_plines(j.loops.iter().map(|l| to_pl(&l.v, true)));
    let s2 = Shape::from_plines(j.loops.iter().map(|l| to_pl(&l.v.iter().map(|q| [q[0] * u, q[1] * u, q[2]]).collect::<Vec<V>>(), true)));
    let d0 = ShapeOffsetOptions::<f64>::default();
    let o = ShapeOffsetOptions { pos_equal_eps: d0.pos_equal_eps * u, offset_dist_eps: d0.offset_dist_eps * u, slice_join_eps: d0.slice_join_eps * u };
    let run = |s: &Shape<f64>, d: f64, o: ShapeOffsetOptions<f64>| catching(|| s.parallel_offset(d, o));
    let (r1, r2) = match (run(&s1, j.d, d0), run(&s2, j.d * u, o)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(m), _) | (_, Err(m)) if fixed_tolerance(&m) => {
            // the debug build's view validation has fixed tolerances that ignore the caller's
            c.ev("fixed_debug_tolerance_hits", 1);
            c.skip();
            return Ok(());
        }
        (Err(m), _) | (_, Err(m)) => return fail("panic", m),
    };
    if !r1.ccw_plines.is_empty() {
        c.nontrivial();
    }
    for (x, y) in [(&r1.ccw_plines, &r2.ccw_plines), (&r1.cw_plines, &r2.cw_plines)] {
        let x: Vec<PL> = x.iter().map(|x| x.polyline.clone()).collect();
        let y: Vec<PL> = y.iter().map(|y| to_pl(&verts(&y.polyline).iter().map(|q| [q[0] / u, q[1] / u, q[2]]).collect::<Vec<V>>(), true)).collect();
        if let Err(e) = same_sets(c, &x, &y, 8e-4, "scaled tolerances") {
            c.soft("unit_deviations", e);
            return Ok(());
        }
    }
    c.ev("unit_shapes", 1);
    Ok(())
}
/// exactly critical offsets (see known_findings.jsonl)
const SHAPES: &[(f64, &[&str])] = &[
    (-0.75, &["closed[(0,0,0) (5,0,0) (5,8,0) (1,8,0.41421356237309503) (0,7,0)]", "closed[(2.249999999999999,4.700961894323342,-0.5773502691896257) (2.2500000000000004,7.299038105676658,-0.5773502691896257) (4.5,6,-0.5773502691896257)]", "closed[(3,5.5,0) (3,6.5,0) (2,6.5,0) (2,5.5,0)]"]),
    (-1.25, &["closed[(0,0,0) (6,0,0) (6,10,0) (0,10,0)]", "closed[(5.5,7,-1) (1.5,7,-1)]", "closed[(4,8.5,0) (3,8.5,0) (3,7.5,0) (4,7.5,0)]"]),
    (1.0, &["closed[(0,0,0) (10,0,0) (10,10,0) (0,10,0)]", "closed[(3,3,0) (3,7,0) (7,7,0) (7,3,0)]"]),
    (1.4, &["closed[(0,0,0) (10,0,0) (10,10,0) (0,10,0)]", "closed[(3,3,0) (3,7,0) (7,7,0) (7,3,0)]"]),
    (1.6, &["closed[(0,0,0) (10,0,0) (10,10,0) (0,10,0)]", "closed[(3,3,0) (3,7,0) (7,7,0) (7,3,0)]"]),
    (-1.0, &["closed[(0,0,0) (4,0,0) (4,4,0) (0,4,0)]", "closed[(5,0,0) (9,0,0) (9,4,0) (5,4,0)]"]),
];
fn c08_corpus(c: &mut Case) -> R {
    let (d, t) = SHAPES[c.idx as usize % SHAPES.len()];
    let loops = t.iter().map(|t| { let (v, cl) = parse(t).unwrap(); Path::new(v, cl) }).collect();
    let j = ShapeJob { loops, d, k: 1.0 };
    c.input(shape_text(&j));
    shape_check(c, &j, 0)
}

/// polylines of dozens to hundreds of vertexes
fn c04_large(c: &mut Case) -> R {
    c.rng.big = true;
    if c.rng.chance(0.5) { c04_general(c) } else { c04_grid(c) }
}
fn c05_large(c: &mut Case) -> R {
    c.rng.big = true;
    if c.rng.chance(0.5) { c05_general(c) } else { c05_grid(c) }
}
fn c06_large(c: &mut Case) -> R {
    c.rng.big = true;
    if c.rng.chance(0.5) { c06_general(c) } else { c06_grid(c) }
}
fn c08_large(c: &mut Case) -> R {
    c.rng.big = true;
    if c.rng.chance(0.5) { c08_general(c) } else { c08_grid(c) }
}
fn c07_large(c: &mut Case) -> R {
    c.rng.big = true;
    match c.rng.below(3) {
        0 => c07_index(c),
        1 => c07_flag(c),
        _ => c07_units(c),
    }
}
/// short segments (chords or arcs), small outlines, distances of many times their length
fn c04_fine(c: &mut Case) -> R {
    c.rng.fine = true;
    c04_general(c)
}
fn c05_fine(c: &mut Case) -> R {
    c.rng.fine = true;
    c05_general(c)
}
fn c06_fine(c: &mut Case) -> R {
    c.rng.fine = true;
    c06_general(c)
}
fn c07_fine(c: &mut Case) -> R {
    c.rng.fine = true;
    if c.rng.chance(0.5) { c07_index(c) } else { c07_flag(c) }
}
fn c08_fine(c: &mut Case) -> R {
    c.rng.fine = true;
    c08_general(c)
}
fn main() {
    let n = CORPUS.len() as u64;
    let rates = || vec![("isolated_deviations", "cases", 5e-4)];
    cavc_monitor::rep::main(vec![
        Property {
            id: "C04",
            rule: "random simple closed polyline (lines and arcs) and signed distance; non-trivial when the result is not empty; oracle: analytic point to curve distance and side",
            classes: vec![
                Class { name: "general", quick: 200000, thorough: 600000, f: c04_general },
                Class { name: "grid", quick: 200000, thorough: 400000, f: c04_grid },
                Class { name: "corpus", quick: n, thorough: n, f: c04_corpus }, Class { name: "large", quick: 8000, thorough: 40000, f: c04_large },
                Class { name: "fine", quick: 8000, thorough: 30000, f: c04_fine },
            ],
            floors: vec![("result_points", 300000), ("split_results", 300)],
            rates: rates(),
        },
        Property {
            id: "C05",
            rule: "as C04; oracle: winding number of the result loops against signed distance, at sampled points",
            classes: vec![
                Class { name: "general", quick: 200000, thorough: 600000, f: c05_general },
                Class { name: "grid", quick: 200000, thorough: 400000, f: c05_grid },
                Class { name: "corpus", quick: n, thorough: n, f: c05_corpus }, Class { name: "large", quick: 5000, thorough: 40000, f: c05_large },
                Class { name: "fine", quick: 3000, thorough: 30000, f: c05_fine },
            ],
            floors: vec![("membership_points", 300000), ("split_results", 300)],
            rates: rates(),
        },
        Property {
            id: "C06",
            rule: "random open polyline and signed distance; non-trivial when the result is not empty; oracle: analytic distance, side, direction, and presence of every clearly valid parallel point",
            classes: vec![
                Class { name: "general", quick: 200000, thorough: 600000, f: c06_general },
                Class { name: "grid", quick: 200000, thorough: 400000, f: c06_grid },
                Class { name: "crossing", quick: 100000, thorough: 200000, f: c06_crossing },
                Class { name: "corpus", quick: OPEN_CORPUS.len() as u64, thorough: OPEN_CORPUS.len() as u64, f: c06_corpus }, Class { name: "large", quick: 400, thorough: 10000, f: c06_large },
                Class { name: "fine", quick: 5000, thorough: 30000, f: c06_fine },
            ],
            floors: vec![("result_points", 300000), ("completeness_points", 100000), ("side_points", 50000)],
            rates: vec![("isolated_deviations", "cases", 5e-4), ("incomplete_results", "completeness_cases", 1e-4), ("shallow_dips", "crossing_cases", 1e-3)],
        },
        Property {
            id: "C07",
            rule: "random polyline, distance and option set; non-trivial when the result is not empty; oracle: results with and without the option, and the distance oracles of C04/C05",
            classes: vec![
                Class { name: "index", quick: 100000, thorough: 300000, f: c07_index },
                Class { name: "flag", quick: 100000, thorough: 300000, f: c07_flag },
                Class { name: "crossing", quick: 100000, thorough: 300000, f: c07_crossing },
                Class { name: "units", quick: 100000, thorough: 300000, f: c07_units }, Class { name: "large", quick: 2000, thorough: 40000, f: c07_large },
                Class { name: "fine", quick: 3000, thorough: 30000, f: c07_fine },
            ],
            floors: vec![("compared_points", 100000), ("membership_points", 100000)],
            rates: vec![("unit_deviations", "unit_cases", 1e-3), ("isolated_deviations", "cases", 5e-4), ("shallow_dips", "crossing_cases", 1e-3)],
        },
        Property {
            id: "C08",
            rule: "random shape of nested loops and signed distance; non-trivial when the result is not empty; oracle: distance to the shape boundary, winding number against signed distance",
            classes: vec![
                Class { name: "general", quick: 55000, thorough: 300000, f: c08_general },
                Class { name: "grid", quick: 55000, thorough: 300000, f: c08_grid },
                Class { name: "units", quick: 15000, thorough: 150000, f: c08_units },
                Class { name: "corpus", quick: SHAPES.len() as u64, thorough: SHAPES.len() as u64, f: c08_corpus }, Class { name: "large", quick: 1000, thorough: 20000, f: c08_large },
                Class { name: "fine", quick: 800, thorough: 30000, f: c08_fine },
            ],
            floors: vec![("membership_points", 300000), ("multi_loop_shapes", 5000), ("unit_shapes", 5000)],
            rates: vec![("unit_deviations", "unit_cases", 3e-3), ("isolated_deviations", "cases", 1e-3)],
        },
    ])
}
fn mixed_d(r: &mut Rng, hi: f64) -> f64 {
    let top = match r.below(3) {
        0 => 0.3,
        1 => 1.2,
        _ => hi,
    };
    let d = r.range(0.02, top);
    r.sign() * d
}
