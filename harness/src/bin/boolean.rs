//! C01 boolean operations are set algebra, C02 structure of boolean results, C03 degenerate contacts
use cavalier_contours::polyline::*;
use cavc_monitor::ensure;
use cavc_monitor::gen_::{self, Style};
use cavc_monitor::geom::*;
use cavc_monitor::lib_api::*;
use cavc_monitor::rep::*;
use cavc_monitor::rng::Rng;

const OPS: [BooleanOp; 4] = [BooleanOp::Or, BooleanOp::And, BooleanOp::Not, BooleanOp::Xor];

fn want(op: BooleanOp, a: bool, b: bool) -> bool {
    match op {
        BooleanOp::Or => a || b,
        BooleanOp::And => a && b,
        BooleanOp::Not => a && !b,
        BooleanOp::Xor => a != b,
    }
}

/// smallest separation from any degenerate configuration: vertices of one away from the other,
/// no near tangency, no grazing crossing
fn general_position(a: &Path, b: &Path, m: f64) -> bool {
    for (x, y) in [(a, b), (b, a)] {
        for i in 0..x.v.len() {
            if y.dist(x.pos(i)) < m {
                return false;
            }
        }
    }
    for (i, s) in a.segs.iter().enumerate() {
        for (j, t) in b.segs.iter().enumerate() {
            if box_gap(&a.boxes[i], &b.boxes[j]) > m {
                continue;
            }
            let is = seg_isect(s, t, m);
            if is.ambiguous {
                return false;
            }
            for q in &is.pts {
                let (u, w) = (s.tan(s.closest(*q).0), t.tan(t.closest(*q).0));
                if u.cross(w).abs() < 0.02 {
                    return false;
                }
            }
        }
    }
    true
}

fn crossings(a: &Path, b: &Path) -> Vec<P> {
    let mut out = vec![];
    for (i, s) in a.segs.iter().enumerate() {
        for (j, t) in b.segs.iter().enumerate() {
            if box_gap(&a.boxes[i], &b.boxes[j]) > 0.0 {
                continue;
            }
            out.extend(seg_isect(s, t, 0.0).pts);
        }
    }
    out
}

/// sample points that see every face near every feature of the two outlines
fn samples(r: &mut Rng, a: &Path, b: &Path, extra: &[Path], m: f64, n: usize) -> Vec<P> {
    let mut out = vec![];
    let cr = crossings(a, b);
    for q in cr.iter().take(60) {
        for k in 0..8 {
            let th = std::f64::consts::TAU * (k as f64 + r.f()) / 8.0;
            out.push(polar(*q, m * r.range(2.5, 12.0), th));
        }
    }
    for pa in [a, b].into_iter().chain(extra.iter()) {
        for s in &pa.segs {
            for _ in 0..2 {
                let t = r.f();
                let q = s.at(t);
                let nrm = s.tan(t).left();
                for sg in [1.0, -1.0] {
                    out.push(q + nrm * (sg * m * r.range(1.5, 10.0)));
                }
            }
        }
    }
    let (x, y) = (a.bbox(), b.bbox());
    let bb = [x[0].min(y[0]), x[1].min(y[1]), x[2].max(y[2]), x[3].max(y[3])];
    let (ex, ey) = ((bb[2] - bb[0]) * 0.05, (bb[3] - bb[1]) * 0.05);
    for _ in 0..n {
        out.push(p(r.range(bb[0] - ex, bb[2] + ex), r.range(bb[1] - ey, bb[3] + ey)));
    }
    out
}

struct Pair {
    a: Path,
    b: Path,
    /// unit of length (scale applied to the natural size of about ten)
    k: f64,
    rotated: bool,
}

fn pair_general(r: &mut Rng) -> Pair {
    loop {
        let a = gen_::closed(r, Style::General, 0.08);
        let big = r.big;
        // mostly large against small
        r.big = big && r.chance(0.3);
        let mut b = gen_::closed(r, Style::General, 0.08);
        r.big = big;
        if r.chance(0.15) {
            b = Path::new(transform(&a.v, r.range(0.5, 1.2), r.range(0.0, 6.3), 0.0, 0.0), true);
        }
        let kb = r.logrange(0.2, 1.6);
        let (sx, sy) = if r.chance(0.85) { (r.range(-4.0, 4.0), r.range(-4.0, 4.0)) } else { (r.range(-12.0, 12.0), r.range(-12.0, 12.0)) };
        let b = Path::new(transform(&b.v, kb, r.range(0.0, 6.3), sx, sy), true);
        let a2 = Path::new(transform(&a.v, 1.0, r.range(0.0, 6.3), 0.0, 0.0), true);
        if !general_position(&a2, &b, 2e-3) {
            continue;
        }
        let (v, k) = gen_::place(r, &[&a2, &b], (0.5, 20.0), 5.0);
        let mut it = v.into_iter();
        return Pair { a: it.next().unwrap(), b: it.next().unwrap(), k, rotated: true };
    }
}

/// contacts on a grid: shared edges, shared vertexes, vertex on edge, identical outlines, tangent arcs
fn pair_grid(r: &mut Rng) -> Pair {
    let a = gen_::closed(r, Style::Grid, 0.05);
    let b = match r.below(12) {
        0 => {
            // same outline, other start, direction or subdivision
            let mut v = a.v.clone();
            if r.chance(0.5) {
                v = reverse(&v, true);
            }
            if r.chance(0.4) {
                v = gen_::subdivide(r, &v, true, 0.5);
            }
            let k = r.below(v.len());
            Path::new(rotate(&v, k), true)
        }
        1 => {
            let v: Vec<V> = a.v.iter().map(|q| [q[0] + 1.0, q[1], q[2]]).collect();
            Path::new(v, true)
        }
        _ => {
            let b = gen_::closed(r, Style::Grid, 0.05);
            let st = if r.chance(0.7) { 1.0 } else { 0.5 };
            let (dx, dy) = (r.int(-3, 3) as f64 * st, r.int(-3, 3) as f64 * st);
            let rot = r.below(4);
            let v: Vec<V> = b
                .v
                .iter()
                .map(|q| {
                    let mut q = *q;
                    for _ in 0..rot {
                        q = [-q[1], q[0], q[2]];
                    }
                    [q[0] + dx, q[1] + dy, q[2]]
                })
                .collect();
            Path::new(v, true)
        }
    };
    if r.chance(0.35) {
        let (v, k) = gen_::place_near(r, &[&a, &b], (0.5, 20.0), 3.0);
        let mut it = v.into_iter();
        return Pair { a: it.next().unwrap(), b: it.next().unwrap(), k, rotated: true };
    }
    Pair { a, b, k: 1.0, rotated: false }
}

fn result_paths(rs: &BooleanResult<PL>) -> (Vec<Path>, Vec<Path>) {
    (
        rs.pos_plines.iter().map(|q| path_of(&q.pline)).collect(),
        rs.neg_plines.iter().map(|q| path_of(&q.pline)).collect(),
    )
}

fn check_membership(c: &mut Case, pr: &Pair, m: f64, n: usize, opname: BooleanOp, rs: &BooleanResult<PL>) -> R {
    let (pos, neg) = result_paths(rs);
    let mut extra: Vec<Path> = pos.clone();
    extra.extend(neg.iter().cloned());
    let m = m * pr.k;
    let mut in_n = 0u64;
    for q in samples(&mut c.rng, &pr.a, &pr.b, &extra, m, n) {
        if pr.a.dist(q) < m || pr.b.dist(q) < m {
            c.ev("points_too_close_to_outline", 1);
            continue;
        }
        let (ia, ib) = (pr.a.inside(q), pr.b.inside(q));
        let w = want(opname, ia, ib);
        let np: i64 = pos.iter().map(|s| s.winding(q).abs()).sum();
        let nn: i64 = neg.iter().map(|s| s.winding(q).abs()).sum();
        c.ev("membership_points", 1);
        if w {
            in_n += 1;
        }
        let got = np - nn;
        ensure!(
            got == w as i64,
            "membership",
            "{opname:?}: point ({:?},{:?}) in first={ia} in second={ib} must be {} the result, but it is covered by {np} positive and {nn} negative loops",
            q.x,
            q.y,
            if w { "inside" } else { "outside" }
        );
    }
    c.ev("points_inside_result", in_n);
    Ok(())
}

fn areas(rs: &BooleanResult<PL>) -> f64 {
    let (pos, neg) = result_paths(rs);
    pos.iter().map(|s| s.area().abs()).sum::<f64>() - neg.iter().map(|s| s.area().abs()).sum::<f64>()
}

fn c01(c: &mut Case, pr: Pair, m: f64) -> R {
    c01_eps(c, pr, m, None)
}

fn c01_eps(c: &mut Case, pr: Pair, m: f64, eps: Option<f64>) -> R {
    let boolean = |a: &PL, b: &PL, op: BooleanOp| match eps {
        None => a.boolean(b, op),
        Some(e) => a.boolean_opt(b, op, &PlineBooleanOptions { pos_equal_eps: e, ..Default::default() }),
    };
    c.input(format!("{} {}", ptext(&pr.a), ptext(&pr.b)));
    let (pa, pb) = (to_pl(&pr.a.v, true), to_pl(&pr.b.v, true));
    if !crossings(&pr.a, &pr.b).is_empty() {
        c.nontrivial();
        c.ev("crossing_pairs", 1);
    }
    let mut ar = vec![];
    for op in OPS {
        let rs = boolean(&pa, &pb, op);
        ensure!(
            !matches!(rs.result_info, BooleanResultInfo::InvalidInput),
            "result-info",
            "{op:?}: two valid closed polylines reported as invalid input"
        );
        check_membership(c, &pr, m, 25, op, &rs)?;
        ar.push(areas(&rs));
        c.ev("operations", 1);
    }
    // area conservation
    let (sa, sb) = (pr.a.area().abs(), pr.b.area().abs());
    let per = pr.a.len() + pr.b.len();
    let tol = (1e-4 + 10.0 * eps.unwrap_or(0.0) / pr.k.max(1.0)) * per * pr.k.max(1.0) + 1e-6 * (sa + sb);
    let (or, and, not, xor) = (ar[0], ar[1], ar[2], ar[3]);
    ensure!((or + and - sa - sb).abs() < tol, "area", "area(A or B)+area(A and B) = {} but area(A)+area(B) = {}", or + and, sa + sb);
    ensure!((not + and - sa).abs() < tol, "area", "area(A not B)+area(A and B) = {} but area(A) = {}", not + and, sa);
    ensure!((xor + and - or).abs() < tol, "area", "area(A xor B)+area(A and B) = {} but area(A or B) = {or}", xor + and);
    // other order of operands
    let rn = boolean(&pb, &pa, BooleanOp::Not);
    ensure!((areas(&rn) + and - sb).abs() < tol, "area", "area(B not A)+area(A and B) = {} but area(B) = {sb}", areas(&rn) + and);
    c.ev("area_identities", 4);
    Ok(())
}

fn c01_general(c: &mut Case) -> R {
    let pr = pair_general(&mut c.rng);
    c01(c, pr, 1e-3)
}
fn c03_grid(c: &mut Case) -> R {
    let pr = pair_grid(&mut c.rng);
    if !pr.rotated {
        c.ev("axis_aligned_pairs", 1);
    }
    c01(c, pr, 2e-3)
}

/// as grid, but shared positions differ by a small fraction of the tolerance, which is scaled with the unit
fn c03_noise(c: &mut Case) -> R {
    let pr = loop {
        let pr = pair_grid(&mut c.rng);
        if !pr.rotated {
            break pr;
        }
    };
    let r = &mut c.rng;
    let k = if r.chance(0.5) { 1.0 } else { r.logrange(0.2, 1000.0) };
    // default tolerance, or one that fits the unit and the noise
    let eps = if k < 20.0 && r.chance(0.4) { None } else { Some(k * r.logrange(1e-6, 1e-3)) };
    let e = eps.unwrap_or(1e-5);
    // parallel lines are told by the area between them, so the noise must be small as an area too
    let noise = e * r.logrange(1e-4, 3e-2) / k.max(1.0);
    let (rot, tx, ty) = if r.chance(0.5) { (0.0, 0.0, 0.0) } else { (r.range(0.0, 6.3), k * r.range(-5.0, 5.0), k * r.range(-5.0, 5.0)) };
    let mut mk = |v: &[V]| -> Path {
        let v: Vec<V> = transform(v, k, rot, tx, ty).iter().map(|q| [q[0] + r.range(-noise, noise), q[1] + r.range(-noise, noise), q[2]]).collect();
        Path::new(v, true)
    };
    let pr = Pair { a: mk(&pr.a.v), b: mk(&pr.b.v), k, rotated: true };
    c.ev(if eps.is_some() { "own_tolerance" } else { "default_tolerance" }, 1);
    let tangent = tangent_contact(&pr, 2.0 * e);
    if tangent {
        c.ev("tangent_pairs", 1);
    }
    match c01_eps(c, pr, (200.0 * e / k).max(2e-3), eps) {
        // tangent outlines that overlap by less than the tolerance cross further apart than it
        Err(e) if tangent => {
            c.soft("tangent_deviations", e);
            Ok(())
        }
        x => x,
    }
}
/// the outlines touch without crossing somewhere, other than along a shared stretch
fn tangent_contact(pr: &Pair, e: f64) -> bool {
    for (i, s) in pr.a.segs.iter().enumerate() {
        for (j, t) in pr.b.segs.iter().enumerate() {
            if box_gap(&pr.a.boxes[i], &pr.b.boxes[j]) > e || same_carrier(s, t, e) {
                continue;
            }
            if contacts(s, t, e).iter().any(|q| s.tan(s.closest(*q).0).cross(t.tan(t.closest(*q).0)).abs() < 0.05) {
                return true;
            }
        }
    }
    false
}

const CORPUS: &[(&str, &str)] = &[
    ("closed[(0,-1,0) (2,-1,1) (2,1,0) (0,1,1)]", "closed[(0,-1,-0.41421356237309503) (-1,0,-0.41421356237309503) (0,1,-0.41421356237309503) (1,0,-0.41421356237309503)]"),
    ("closed[(0,0,-0.41421356237309503) (1,1,-0.41421356237309503) (2,0,-0.41421356237309503) (1,-1,-0.41421356237309503)]", "closed[(1,1,0) (-2,1,1) (-2,-1,0) (1,-1,0.198912367379658) (1.7071067811865475,-0.7071067811865476,0.6681786379192989)]"),
    ("closed[(0,0,0) (4,0,0) (4,4,0) (0,4,0)]", "closed[(0,0,0) (4,0,0) (4,4,0) (0,4,0)]"),
    ("closed[(0,0,0) (4,0,0) (4,4,0) (0,4,0)]", "closed[(4,4,0) (4,0,0) (0,0,0) (0,4,0)]"),
    ("closed[(0,0,0) (4,0,0) (4,4,0) (0,4,0)]", "closed[(4,1,0) (6,1,0) (6,3,0) (4,3,0)]"),
    ("closed[(0,0,0) (4,0,0) (4,4,0) (0,4,0)]", "closed[(1,0,0) (3,0,0) (3,4,0) (1,4,0)]"),
    ("closed[(0,0,0) (4,0,0) (4,4,0) (0,4,0)]", "closed[(4,4,0) (6,4,0) (6,6,0) (4,6,0)]"),
    ("closed[(-1,0,1) (1,0,1)]", "closed[(-1,0,1) (1,0,1)]"),
    ("closed[(-1,0,1) (1,0,1)]", "closed[(0,-1,-1) (0,1,-1)]"),
    ("closed[(-1,0,1) (1,0,1)]", "closed[(1,0,1) (3,0,1)]"),
    ("closed[(-1,0,1) (1,0,1)]", "closed[(-1,0,1) (0,0,1)]"),
    ("closed[(-1,0,0) (1,0,1)]", "closed[(-1,0,0) (1,0,-1)]"),
    // nearly vertical shared edges, positions equal to within the default tolerance
    ("closed[(-2.57752602402752,-4.357583763184869,-0.0) (-3.577522535857333,-4.360225844331747,-0.0) (-3.5828066995291064,-2.360232825792824,-0.0) (-2.5828101885645784,-2.357590737631914,-0.0)]", "closed[(-2.5828101890906456,-2.357590733988685,-0.0) (-2.5775260317045605,-4.357583764303567,-0.0) (-3.277523587748576,-4.359433221742196,0.0) (-3.57752252883226,-4.360225842482386,-0.0) (-3.5828067059467146,-2.360232823404747,-0.0)]"),
];
fn c03_corpus(c: &mut Case) -> R {
    let (a, b) = CORPUS[c.idx as usize % CORPUS.len()];
    let (a, b) = (Path::new(parse(a).unwrap().0, true), Path::new(parse(b).unwrap().0, true));
    c01(c, Pair { a, b, k: 1.0, rotated: false }, 2e-3)
}

fn contained(c: &mut Case, a: &Path, b: &Path) -> bool {
    let _ = c;
    a.inside(b.pos(0))
}

fn c02(c: &mut Case, pr: Pair, general: bool) -> R {
    c.input(format!("{} {}", ptext(&pr.a), ptext(&pr.b)));
    let (pa, pb) = (to_pl(&pr.a.v, true), to_pl(&pr.b.v, true));
    let cr = crossings(&pr.a, &pr.b);
    if !cr.is_empty() {
        c.nontrivial();
    }
    let ix = pa.create_approx_aabb_index();
    let ixe = pa.create_aabb_index();
    let eps = 1e-5;
    for op in OPS {
        let rs = pa.boolean(&pb, op);
        // classification
        if general {
            let info = format!("{:?}", rs.result_info);
            let exp = if !cr.is_empty() {
                "Intersected"
            } else if contained(c, &pr.b, &pr.a) {
                "Pline1InsidePline2"
            } else if contained(c, &pr.a, &pr.b) {
                "Pline2InsidePline1"
            } else {
                "Disjoint"
            };
            ensure!(info == exp, "result-info", "{op:?}: reported {info}, the outlines are {exp}");
            c.ev("classifications", 1);
        }
        for (neg, rp) in rs.pos_plines.iter().map(|q| (false, q)).chain(rs.neg_plines.iter().map(|q| (true, q))) {
            let pl = &rp.pline;
            ensure!(pl.is_closed(), "result-open", "{op:?}: open polyline in the result");
            ensure!(pl.vertex_count() >= 2, "result-degenerate", "{op:?}: result polyline with {} vertexes", pl.vertex_count());
            ensure!(finite(pl), "result-nonfinite", "{op:?}: non finite vertex in {}", text(&verts(pl), true));
            let pt = path_of(pl);
            for s in &pt.segs {
                ensure!(s.a().dist(s.b()) > 1e-9, "result-repeat", "{op:?}: consecutive vertexes coincide in {}", ptext(&pt));
            }
            // provenance: the outline only uses pieces of the two inputs
            let tol = 1e-4 + 1e-9 * pr.a.max_abs().max(pr.b.max_abs());
            for (i, s) in pt.segs.iter().enumerate() {
                for t in [0.0, 0.13, 0.5, 0.81] {
                    let q = s.at(t);
                    let d = pr.a.dist(q).min(pr.b.dist(q));
                    ensure!(d < tol, "provenance", "{op:?}: segment {i} of a result loop leaves both outlines by {d:e} at ({},{})", q.x, q.y);
                    c.ev("provenance_points", 1);
                }
            }
            match rs.result_info {
                BooleanResultInfo::Intersected => {
                    ensure!(!rp.subslices.is_empty(), "subslices", "{op:?}: intersected result without subslices");
                    // stitching the reported slices end to end reproduces the loop
                    let mut acc: Vec<V> = vec![];
                    for (si, sl) in rp.subslices.iter().enumerate() {
                        let src = if sl.source_is_pline1 { &pa } else { &pb };
                        match sl.view_data.validate_for_source(src) {
                            ViewDataValidation::IsValid => {}
                            x => return fail("subslices", format!("{op:?}: subslice {si} is not valid for its source: {x:?}")),
                        }
                        let vs = verts(&sl.view(src));
                        ensure!(vs.len() >= 2, "subslices", "{op:?}: subslice {si} has {} vertexes", vs.len());
                        // marked as overlapping exactly when both outlines run along it
                        let sp = Path::new(vs.clone(), false);
                        let other = if sl.source_is_pline1 { &pr.b } else { &pr.a };
                        let far = sp.segs.iter().flat_map(|s| [0.17, 0.5, 0.83].map(|t| other.dist(s.at(t)))).fold(0.0, f64::max);
                        if sl.overlapping {
                            ensure!(far < tol, "subslices", "{op:?}: subslice {si} is marked as overlapping, but {far:e} away from the other outline");
                            c.ev("overlapping_subslices", 1);
                        } else if sp.len() > 0.02 {
                            ensure!(far > 1e-9, "subslices", "{op:?}: both outlines run along subslice {si}, not marked as overlapping");
                        }
                        if let Some(l) = acc.last().copied() {
                            let d = p(l[0], l[1]).dist(p(vs[0][0], vs[0][1]));
                            ensure!(d < 4.0 * eps, "subslices", "{op:?}: subslice {si} does not start where the previous ends (gap {d:e})");
                            acc.pop();
                        }
                        acc.extend(vs);
                    }
                    let (f, l) = (acc[0], *acc.last().unwrap());
                    let d = p(f[0], f[1]).dist(p(l[0], l[1]));
                    ensure!(d < 4.0 * eps, "subslices", "{op:?}: stitched subslices do not close (gap {d:e})");
                    let st = Path::new(acc, false);
                    let (la, lb) = (st.len(), pt.len());
                    ensure!((la - lb).abs() < 1e-3 * (1.0 + lb), "subslices", "{op:?}: stitched subslices have length {la}, the loop {lb}");
                    for s in &pt.segs {
                        for t in [0.0, 0.5] {
                            let d = st.dist(s.at(t));
                            ensure!(d < 1e-4, "subslices", "{op:?}: result loop leaves its subslices by {d:e}");
                        }
                    }
                    c.ev("subslices", rp.subslices.len() as u64);
                }
                _ => {
                    let src = if path_same(&pt, &pr.a) || path_same(&pt, &pr.b) { true } else { false };
                    ensure!(src, "whole-pline", "{op:?}: without intersections the result loop must be one of the inputs: {}", ptext(&pt));
                    c.ev("whole_inputs", 1);
                }
            }
            c.ev(if neg { "negative_loops" } else { "positive_loops" }, 1);
        }
        // holes lie in positive loops
        let (pos, negs) = result_paths(&rs);
        for n in &negs {
            for s in n.segs.iter() {
                let q = s.at(0.37);
                if pos.iter().any(|x| x.dist(q) < 1e-3 * pr.k) {
                    continue;
                }
                ensure!(pos.iter().any(|x| x.inside(q)), "hole", "{op:?}: negative loop outside of all positive loops at ({},{})", q.x, q.y);
            }
        }
        // a supplied spatial index of the first polyline changes nothing
        for ix in [&ix, &ixe] {
            let o = PlineBooleanOptions { pline1_aabb_index: Some(ix), ..Default::default() };
            let r2 = pa.boolean_opt(&pb, op, &o);
            let per = pr.a.len() + pr.b.len();
            ensure!(
                (areas(&r2) - areas(&rs)).abs() < 1e-4 * per * pr.k.max(1.0)
                    && r2.pos_plines.len() == rs.pos_plines.len()
                    && r2.neg_plines.len() == rs.neg_plines.len(),
                "index-option",
                "{op:?}: area {} / {}+{} loops with a supplied index, {} / {}+{} without",
                areas(&r2), r2.pos_plines.len(), r2.neg_plines.len(), areas(&rs), rs.pos_plines.len(), rs.neg_plines.len()
            );
            c.ev("index_option", 1);
        }
    }
    Ok(())
}

fn path_same(a: &Path, b: &Path) -> bool {
    a.v.len() == b.v.len() && a.v.iter().zip(&b.v).all(|(x, y)| x.iter().zip(y).all(|(s, t)| (s - t).abs() < 1e-9))
}

fn c02_general(c: &mut Case) -> R {
    let pr = pair_general(&mut c.rng);
    c02(c, pr, true)
}
fn c02_grid(c: &mut Case) -> R {
    let pr = pair_grid(&mut c.rng);
    c02(c, pr, false)
}
/// nested and disjoint outlines (no contact)
fn c02_nested(c: &mut Case) -> R {
    let pr = loop {
        let a = gen_::closed(&mut c.rng, Style::General, 0.08);
        let b = gen_::closed(&mut c.rng, Style::General, 0.08);
        let (k, x, y) = (c.rng.logrange(0.02, 0.4), c.rng.range(-5.0, 5.0), c.rng.range(-5.0, 5.0));
        let b = Path::new(transform(&b.v, k, c.rng.range(0.0, 6.3), x, y), true);
        if !general_position(&a, &b, 2e-3) || !crossings(&a, &b).is_empty() {
            continue;
        }
        let (a, b) = if c.rng.chance(0.5) { (a, b) } else { (b, a) };
        break Pair { a, b, k: 1.0, rotated: true };
    };
    c.nontrivial();
    c02(c, pr, true)
}
/// inputs that are not closed areas are refused
fn c02_invalid(c: &mut Case) -> R {
    let a = gen_::closed(&mut c.rng, Style::General, 0.08);
    let b = gen_::closed(&mut c.rng, Style::General, 0.08);
    let k = c.rng.below(5);
    let (mut va, mut vb, mut ca, mut cb) = (a.v.clone(), b.v.clone(), true, true);
    match k {
        0 => ca = false,
        1 => cb = false,
        2 => va.truncate(c.rng.below(2)),
        3 => vb.truncate(c.rng.below(2)),
        _ => {
            ca = false;
            cb = false;
        }
    }
    c.input(format!("{} {}", text(&va, ca), text(&vb, cb)));
    c.nontrivial();
    for op in OPS {
        let r = to_pl(&va, ca).boolean(&to_pl(&vb, cb), op);
        ensure!(
            matches!(r.result_info, BooleanResultInfo::InvalidInput) && r.pos_plines.is_empty() && r.neg_plines.is_empty(),
            "invalid-input",
            "{op:?}: an input that is not a closed area was not refused: {:?}",
            r.result_info
        );
        c.ev("refusals", 1);
    }
    Ok(())
}

/// outlines of dozens to hundreds of vertexes
/// the same drawing in other units, with the tolerance in the same units, has the same result
fn c03_units(c: &mut Case) -> R {
    let pr = if c.rng.chance(0.5) { pair_grid(&mut c.rng) } else { pair_general(&mut c.rng) };
    let u = c.rng.pick(&[1.0 / 4096.0, 1.0 / 256.0, 0.25, 64.0, 1024.0]);
    c.input(format!("units {u:?} {} {}", ptext(&pr.a), ptext(&pr.b)));
    c.nontrivial();
    let sc = |x: &Path| to_pl(&x.v.iter().map(|q| [q[0] * u, q[1] * u, q[2]]).collect::<Vec<V>>(), true);
    let (a1, b1, a2, b2) = (to_pl(&pr.a.v, true), to_pl(&pr.b.v, true), sc(&pr.a), sc(&pr.b));
    let d0 = PlineBooleanOptions::<f64>::default().pos_equal_eps;
    for op in OPS {
        let r1 = a1.boolean(&b1, op);
        let r2 = match catching(|| a2.boolean_opt(&b2, op, &PlineBooleanOptions { pos_equal_eps: d0 * u, ..Default::default() })) {
            Ok(r) => r,
            Err(m) if m.contains("pline_view.rs") || m.contains("v1 must not be on top of v2") => {
                // the debug build's view validation has fixed tolerances that ignore the caller's
                c.ev("fixed_debug_tolerance_hits", 1);
                continue;
            }
            Err(m) => return fail("panic", m),
        };
        ensure!(
            std::mem::discriminant(&r1.result_info) == std::mem::discriminant(&r2.result_info),
            "units",
            "{op:?}: outcome is {:?}, in units of {u:?} with the tolerance to match {:?}",
            r1.result_info,
            r2.result_info
        );
        for (x, y, w) in [(&r1.pos_plines, &r2.pos_plines, "positive"), (&r1.neg_plines, &r2.neg_plines, "negative")] {
            ensure!(x.len() == y.len(), "units", "{op:?}: {} {w} loops, in units of {u:?} with the tolerance to match {}", x.len(), y.len());
            let px: Vec<Path> = x.iter().map(|r| path_of(&r.pline)).collect();
            let py: Vec<Path> = y.iter().map(|r| Path::new(verts(&r.pline).iter().map(|q| [q[0] / u, q[1] / u, q[2]]).collect(), true)).collect();
            let (ax, ay) = (px.iter().map(|x| x.area()).sum::<f64>(), py.iter().map(|x| x.area()).sum::<f64>());
            let size = pr.a.diag().max(pr.b.diag()).max(1.0);
            ensure!((ax - ay).abs() < 1e-4 * size * size, "units", "{op:?}: area of the {w} loops is {ax}, in units of {u:?} {ay}");
            for (l, m) in [(&px, &py), (&py, &px)] {
                for q in l.iter().flat_map(|x| x.segs.iter().map(|s| s.at(0.4))) {
                    let d = m.iter().map(|x| x.dist(q)).fold(f64::MAX, f64::min);
                    ensure!(d < 1e-4 * size, "units", "{op:?}: point ({:?},{:?}) of a result loop is {d:e} away from the result in units of {u:?}", q.x, q.y);
                    c.ev("unit_points", 1);
                }
            }
        }
    }
    Ok(())
}
fn c01_large(c: &mut Case) -> R {
    c.rng.big = true;
    c01_general(c)
}
fn c02_large(c: &mut Case) -> R {
    c.rng.big = true;
    if c.rng.chance(0.5) { c02_general(c) } else { c02_grid(c) }
}
fn c03_large(c: &mut Case) -> R {
    c.rng.big = true;
    if c.rng.chance(0.5) { c03_grid(c) } else { c03_noise(c) }
}
fn c01_fine(c: &mut Case) -> R {
    c.rng.fine = true;
    c01_general(c)
}
fn c02_fine(c: &mut Case) -> R {
    c.rng.fine = true;
    c02_general(c)
}
fn main() {
    main_(vec![
        Property {
            id: "C01",
            rule: "random pair of simple closed polylines (lines and arcs) in general position, random placement; non-trivial when the outlines cross; oracle: independent winding numbers at sampled points and area identities",
            classes: vec![Class { name: "general", quick: 100000, thorough: 300000, f: c01_general }, Class { name: "large", quick: 1000, thorough: 40000, f: c01_large },
                Class { name: "fine", quick: 500, thorough: 30000, f: c01_fine },
            ],
            floors: vec![("membership_points", 500000), ("crossing_pairs", 3000), ("points_inside_result", 50000)],
            rates: vec![],
        },
        Property {
            id: "C02",
            rule: "as C01/C03 plus nested, disjoint and invalid pairs; non-trivial when the outlines cross or are nested; oracle: structural rules on every loop and slice of the result",
            classes: vec![
                Class { name: "general", quick: 70000, thorough: 200000, f: c02_general },
                Class { name: "grid", quick: 70000, thorough: 200000, f: c02_grid },
                Class { name: "nested", quick: 20000, thorough: 50000, f: c02_nested },
                Class { name: "units", quick: 20000, thorough: 200000, f: c03_units },
                Class { name: "invalid", quick: 500, thorough: 5000, f: c02_invalid }, Class { name: "large", quick: 5000, thorough: 30000, f: c02_large },
                Class { name: "fine", quick: 2000, thorough: 30000, f: c02_fine },
            ],
            floors: vec![("provenance_points", 300000), ("subslices", 20000), ("overlapping_subslices", 10000), ("classifications", 20000), ("refusals", 1000), ("unit_points", 100000)],
            rates: vec![],
        },
        Property {
            id: "C03",
            rule: "noise class: positions of shared features differ by up to 3 % of the tolerance in use, default or scaled with the unit; otherwise pairs of outlines built on one integer grid (polyominoes, filleted or bulged, circles, slots), sharing edges, arcs, vertexes, or identical; non-trivial when outlines meet; oracle as C01",
            classes: vec![Class { name: "grid", quick: 150000, thorough: 400000, f: c03_grid },
                Class { name: "noise", quick: 60000, thorough: 400000, f: c03_noise },
                Class { name: "corpus", quick: CORPUS.len() as u64, thorough: CORPUS.len() as u64, f: c03_corpus }, Class { name: "large", quick: 5000, thorough: 40000, f: c03_large },
            ],
            floors: vec![("membership_points", 500000), ("crossing_pairs", 3000), ("own_tolerance", 2000)],
            rates: vec![("tangent_deviations", "tangent_pairs", 3e-3)],
        },
    ])
}
use cavc_monitor::rep::main as main_;
