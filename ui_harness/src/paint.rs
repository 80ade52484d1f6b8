//! C32: plot items paint the polylines they are given.
use crate::screen::*;
use cavalier_contours::polyline::internal::pline_offset::create_untrimmed_raw_offset_segs;
use cavalier_contours::shape_algorithms::Shape;
use cavalier_contours_ui::plotting::*;
use cavc_monitor::ensure;
use cavc_monitor::gen_::{self, Style};
use cavc_monitor::geom::*;
use cavc_monitor::lib_api::*;
use cavc_monitor::rep::{Case, Class, Fail, Property, R, catching, fail};
use cavc_monitor::rng::Rng;
use egui::{Color32, Rect, pos2, vec2};
use egui_plot::{PlotBounds, PlotItem, PlotTransform};

thread_local! {
    static CTX: egui::Context = egui::Context::default();
}

/// shapes of an item under a view
fn painted(item: &dyn PlotItem, t: &PlotTransform) -> Result<Vec<egui::Shape>, String> {
    let mut out = vec![];
    let mut err = None;
    CTX.with(|ctx| {
        let _ = ctx.run(Default::default(), |ctx| {
            egui::CentralPanel::default().show(ctx, |ui| {
                out.clear();
                if let Err(e) = catching(|| item.shapes(ui, t, &mut out)) {
                    err = Some(e);
                }
            });
        });
    });
    match err {
        Some(e) => Err(e),
        None => Ok(out),
    }
}

const FILL: Color32 = Color32::from_rgb(10, 20, 30);
const STROKE: Color32 = Color32::from_rgb(40, 50, 60);
const MARK: Color32 = Color32::from_rgb(70, 80, 90);

/// a view that shows about `rel` of the drawing around a point near it
fn view(r: &mut Rng, paths: &[Path], rel: f64) -> (View, PlotTransform, P) {
    let bb = paths.iter().filter(|q| !q.v.is_empty()).fold([f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY], |m, q| {
        let b = if q.segs.is_empty() { [q.v[0][0], q.v[0][1], q.v[0][0], q.v[0][1]] } else { q.bbox() };
        [m[0].min(b[0]), m[1].min(b[1]), m[2].max(b[2]), m[3].max(b[3])]
    });
    let size = (bb[2] - bb[0]).max(bb[3] - bb[1]).max(1e-3);
    let w = r.range(200.0, 1400.0);
    let h = r.range(200.0, 900.0);
    let frame = Rect::from_min_size(pos2(r.range(0.0, 300.0) as f32, r.range(0.0, 200.0) as f32), vec2(w as f32, h as f32));
    let (w, h) = (frame.width() as f64, frame.height() as f64);
    // the smaller side of the frame shows rel * size
    let s = w.min(h) / (size * rel).max(3e-5);
    let q: Vec<&Path> = paths.iter().filter(|q| !q.segs.is_empty()).collect();
    let focus = if q.is_empty() || r.chance(0.3) {
        p(r.range(bb[0], bb[2]), r.range(bb[1], bb[3]))
    } else {
        let pa = q[r.below(q.len())];
        let sg = &pa.segs[r.below(pa.segs.len())];
        let t = if r.chance(0.3) { 0.0 } else { r.f() };
        sg.at(t)
    };
    let c = focus + p(r.range(-0.6, 0.6) * w / s, r.range(-0.6, 0.6) * h / s);
    let min = p(c.x - w / s / 2.0, c.y - h / s / 2.0);
    let (v, t) = view_at(frame, min, s);
    (v, t, focus)
}

fn view_at(frame: Rect, min: P, s: f64) -> (View, PlotTransform) {
    let (w, h) = (frame.width() as f64, frame.height() as f64);
    let b = PlotBounds::from_min_max([min.x, min.y], [min.x + w / s, min.y + h / s]);
    let t = PlotTransform::new(frame, b, false);
    (View { frame, min: p(t.bounds().min()[0], t.bounds().min()[1]), s: w / t.bounds().width() }, t)
}

fn points(r: &mut Rng, paths: &[Path], v: &View, n: usize) -> Vec<P> {
    let f = &v.frame;
    let mut out: Vec<P> = (0..n).map(|_| p(r.range(f.left() as f64, f.right() as f64), r.range(f.top() as f64, f.bottom() as f64))).collect();
    for pa in paths {
        for s in &pa.segs {
            let tol = seg_tol(s, v) + 0.8;
            for _ in 0..3 {
                let t = r.f();
                let (q, d) = (v.px(s.at(t)), s.tan(t));
                let d = d.unit().left();
                // the screen is upside down
                let k = r.sign() * tol * r.range(1.0, 3.0);
                out.push(q + p(d.x * k, -d.y * k));
            }
        }
    }
    out
}

struct Wants {
    fill: bool,
    stroke: bool,
    marks: bool,
    once: bool,
}

/// checks what an item painted against the curves
fn judge(c: &mut Case, paths: &[Path], shapes: &[egui::Shape], v: &View, focus: P, w: &Wants) -> R {
    let sc = match collect(shapes) {
        Ok(s) => s,
        Err(e) => return fail("mesh", e),
    };
    let of = |col: Color32| -> Vec<[P; 3]> { sc.meshes.iter().filter(|m| m.0 == col).flat_map(|m| m.1.iter().copied()).collect() };
    for (col, t) in &sc.meshes {
        ensure!((*col == FILL && w.fill) || (*col == STROKE && w.stroke), "colour", "{} triangles of colour {:?}, wanted fill {} stroke {}", t.len(), col, w.fill, w.stroke);
    }
    let segs: Vec<Path> = paths.iter().filter(|q| !q.segs.is_empty()).cloned().collect();
    if w.stroke {
        let t = Tris::new(of(STROKE), &v.frame);
        match strokes(&segs, &t, v, Some(focus)) {
            Ok(n) => {
                c.ev("curve_points", n.points);
                c.ev("stroke_samples", n.tris);
                if n.points > 0 {
                    c.ev("strokes_seen", 1);
                }
            }
            Err((k, m)) => return fail(k, m),
        }
    }
    if w.fill {
        let pts = points(&mut c.rng, &segs, v, 120);
        let t = Tris::new(of(FILL), &v.frame);
        match fill(&segs, &t, v, &pts, w.once) {
            Ok(n) => {
                c.ev("fill_inside", n.inside);
                c.ev("fill_outside", n.outside);
            }
            // the tessellator misplaces a triangle of a few outlines
            Err((k, m)) => c.soft("fill_deviations", Fail { kind: k.to_string(), msg: m }),
        }
        c.ev("fills", 1);
    }
    // one mark per visible vertex
    let tolm = |q: P| 0.05 + 1e-6 * q.x.abs().max(q.y.abs());
    let mut want: Vec<(P, bool)> = vec![];
    if w.marks {
        for pa in paths {
            for i in 0..pa.v.len() {
                let q = v.px(pa.pos(i));
                if v.visible(q, 0.01) {
                    want.push((q, true));
                } else if v.visible(q, -6.0) {
                    want.push((q, false));
                }
            }
        }
    }
    for m in &sc.marks {
        ensure!(m.color == MARK && m.r > 0.5 && m.r < 20.0, "mark", "a mark of radius {} and colour {:?}", m.r, m.color);
        c.ev("marks", 1);
        ensure!(want.iter().any(|q| q.0.dist(m.c) < tolm(m.c)), "mark", "a mark at pixel ({}, {}) where there is no visible vertex", m.c.x, m.c.y);
    }
    for q in &want {
        ensure!(!q.1 || sc.marks.iter().any(|m| q.0.dist(m.c) < tolm(m.c)), "no-mark", "no mark at the visible vertex at pixel ({}, {})", q.0.x, q.0.y);
    }
    let sure = want.iter().filter(|q| q.1).count();
    ensure!(sc.marks.len() >= sure && sc.marks.len() <= want.len(), "mark-count", "{} marks for {} visible vertexes", sc.marks.len(), sure);
    Ok(())
}

fn bounds_ok(c: &mut Case, item: &dyn PlotItem, paths: &[Path], slack: f64) -> R {
    let mut bb = [f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY];
    for q in paths.iter().filter(|q| !q.v.is_empty()) {
        let b = if q.segs.is_empty() { [q.v[0][0], q.v[0][1], q.v[0][0], q.v[0][1]] } else { q.bbox() };
        bb = [bb[0].min(b[0]), bb[1].min(b[1]), bb[2].max(b[2]), bb[3].max(b[3])];
    }
    if !bb.iter().all(|x| x.is_finite()) {
        return Ok(());
    }
    let b = item.bounds();
    let size = (bb[2] - bb[0]).max(bb[3] - bb[1]);
    let e = 1e-9 * bb.iter().fold(1.0f64, |m, x| m.max(x.abs())) + size * 1e-6 + 2e-8;
    let got = [b.min()[0], b.min()[1], b.max()[0], b.max()[1]];
    c.ev("bounds", 1);
    ensure!(got[0] <= bb[0] + e && got[1] <= bb[1] + e && got[2] >= bb[2] - e && got[3] >= bb[3] - e, "bounds", "bounds {:?} do not contain the drawing {:?}", got, bb);
    let s = e + slack * size;
    ensure!(got[0] >= bb[0] - s && got[1] >= bb[1] - s && got[2] <= bb[2] + s && got[3] <= bb[3] + s, "bounds", "bounds {:?} are larger than the drawing {:?}", got, bb);
    Ok(())
}

fn rel(r: &mut Rng) -> f64 {
    match r.below(10) {
        0..=3 => r.range(0.9, 2.0),
        4..=6 => r.logrange(0.05, 1.0),
        7 => r.logrange(1e-3, 0.05),
        8 => r.logrange(2.0, 300.0),
        _ => r.logrange(1e-6, 1e-3),
    }
}

fn colours<T>(item: PlinesPlotItem<T>, w: &Wants) -> PlinesPlotItem<T> {
    let mut item = item;
    if w.fill {
        item = item.fill_color(FILL);
    }
    if w.stroke {
        item = item.stroke_color(STROKE);
    }
    if w.marks {
        item = item.vertex_color(MARK);
    }
    item
}

fn one(c: &mut Case, pa: Path, w: Wants, k: f64) -> R {
    let paths = [pa];
    c.input(ptext(&paths[0]));
    let (v, t, focus) = view(&mut c.rng, &paths, k);
    c.input(format!("frame {:?} from ({:?}, {:?}) scale {:?}", v.frame, v.min.x, v.min.y, v.s));
    let pl = to_pl(&paths[0].v, paths[0].closed);
    let item = colours(PlinesPlotItem::new(PlinePlotData::new(&pl)), &w);
    let shapes = match painted(&item, &t) {
        Ok(s) => s,
        Err(e) => return fail("panic", e),
    };
    c.ev("items", 1);
    if paths[0].v.len() > 2 {
        c.nontrivial();
    }
    judge(c, &paths, &shapes, &v, focus, &w)?;
    bounds_ok(c, &item, &paths, 0.0)
}

fn simple(c: &mut Case) -> R {
    let r = &mut c.rng;
    let st = if r.chance(0.5) { Style::General } else { Style::Grid };
    let pa = gen_::closed(r, st, 1e-2);
    let pa = gen_::place(r, &[&pa], (0.1, 100.0), 20.0).0.remove(0);
    let w = Wants { fill: r.chance(0.8), stroke: r.chance(0.7), marks: r.chance(0.5), once: true };
    let k = rel(r);
    one(c, pa, w, k)
}

fn open(c: &mut Case) -> R {
    let r = &mut c.rng;
    let st = if r.chance(0.5) { Style::General } else { Style::Grid };
    let pa = gen_::open(r, st, false, 1e-2);
    let pa = gen_::place(r, &[&pa], (0.1, 100.0), 20.0).0.remove(0);
    let w = Wants { fill: false, stroke: true, marks: r.chance(0.5), once: false };
    let k = rel(r);
    one(c, pa, w, k)
}

fn wild(c: &mut Case) -> R {
    let r = &mut c.rng;
    let pa = gen_::wild(r);
    let w = Wants { fill: false, stroke: r.chance(0.9), marks: r.chance(0.5), once: false };
    let k = rel(r);
    one(c, pa, w, k)
}

/// filled outlines that cross themselves: even-odd
fn crossing(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.int(3, 9);
    let parc = r.pick(&[0.0, 0.4, 0.8]);
    let v = (0..n).map(|_| [r.range(-6.0, 6.0), r.range(-6.0, 6.0), if r.chance(parc) { r.range(-1.0, 1.0) } else { 0.0 }]).collect();
    let w = Wants { fill: true, stroke: r.chance(0.3), marks: r.chance(0.5), once: true };
    let k = rel(r);
    one(c, Path::new(v, true), w, k)
}

fn shape(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut paths = vec![];
    let n = r.int(1, 5);
    for _ in 0..n {
        let st = if r.chance(0.5) { Style::General } else { Style::Grid };
        let pa = gen_::closed(r, st, 1e-2);
        let s = r.logrange(0.2, 3.0);
        let (dx, dy) = (r.range(-15.0, 15.0), r.range(-15.0, 15.0));
        paths.push(Path::new(transform(&pa.v, s, 0.0, dx, dy), true));
    }
    for q in &paths {
        c.input(ptext(q));
    }
    let r = &mut c.rng;
    let w = Wants { fill: r.chance(0.7), stroke: r.chance(0.7), marks: r.chance(0.5), once: false };
    let k = rel(r);
    let (v, t, focus) = view(r, &paths, k);
    c.input(format!("frame {:?} from ({:?}, {:?}) scale {:?}", v.frame, v.min.x, v.min.y, v.s));
    let sh = Shape::from_plines(paths.iter().map(|q| to_pl(&q.v, true)));
    let item = colours(PlinesPlotItem::new(&sh), &w);
    let shapes = match painted(&item, &t) {
        Ok(s) => s,
        Err(e) => return fail("panic", e),
    };
    c.ev("items", 1);
    c.nontrivial();
    judge(c, &paths, &shapes, &v, focus, &w)?;
    bounds_ok(c, &item, &paths, 1.0)
}

fn raw(c: &mut Case) -> R {
    let r = &mut c.rng;
    let st = if r.chance(0.5) { Style::General } else { Style::Grid };
    let pa = if r.chance(0.5) { gen_::closed(r, st, 1e-2) } else { gen_::open(r, st, false, 1e-2) };
    let pa = gen_::place(r, &[&pa], (0.1, 100.0), 20.0).0.remove(0);
    c.input(ptext(&pa));
    let d = c.rng.sign() * pa.diag() * c.rng.logrange(0.01, 0.7);
    let segs = create_untrimmed_raw_offset_segs(&to_pl(&pa.v, pa.closed), d);
    if segs.is_empty() {
        c.skip();
        return Ok(());
    }
    let path = |s: &cavalier_contours::polyline::internal::pline_offset::RawPlineOffsetSeg<f64>| Path::new(vec![[s.v1.x, s.v1.y, s.v1.bulge], [s.v2.x, s.v2.y, 0.0]], false);
    let all: Vec<Path> = segs.iter().map(path).collect();
    let k = rel(&mut c.rng);
    let (v, t, focus) = view(&mut c.rng, &all, k);
    c.input(format!("offset {:?} frame {:?} from ({:?}, {:?}) scale {:?}", d, v.frame, v.min.x, v.min.y, v.s));
    let (kept, coll) = match c.rng.below(4) {
        0 => (STROKE, Color32::TRANSPARENT),
        1 => (Color32::TRANSPARENT, MARK),
        _ => (STROKE, MARK),
    };
    let item = RawPlineOffsetSegsPlotItem::new(&segs).color(kept).collapsed_color(coll);
    let shapes = match painted(&item, &t) {
        Ok(s) => s,
        Err(e) => return fail("panic", e),
    };
    c.ev("items", 1);
    c.nontrivial();
    let sc = match collect(&shapes) {
        Ok(s) => s,
        Err(e) => return fail("mesh", e),
    };
    ensure!(sc.marks.is_empty() && sc.meshes.iter().all(|m| m.0 == kept || m.0 == coll) && sc.meshes.iter().all(|m| m.0 != Color32::TRANSPARENT), "colour", "colours {:?}", sc.meshes.iter().map(|m| m.0).collect::<Vec<_>>());
    for (col, collapsed) in [(kept, false), (coll, true)] {
        if col == Color32::TRANSPARENT {
            continue;
        }
        let want: Vec<Path> = segs.iter().filter(|s| s.collapsed_arc == collapsed).map(path).collect();
        let t: Vec<[P; 3]> = sc.meshes.iter().filter(|m| m.0 == col).flat_map(|m| m.1.iter().copied()).collect();
        if collapsed && !want.is_empty() {
            c.ev("collapsed_segments", want.len() as u64);
        }
        match strokes(&want, &Tris::new(t, &v.frame), &v, Some(focus)) {
            Ok(n) => {
                c.ev("raw_points", n.points);
                c.ev("stroke_samples", n.tris);
            }
            Err((k, m)) => return fail(k, m),
        }
    }
    bounds_ok(c, &item, &all, 0.0)
}

/// repeated positions, with and without a bulge; one vertex; none
fn repeats(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.int(0, 7);
    let mut v: Vec<V> = vec![];
    for _ in 0..n {
        let q = [r.range(-6.0, 6.0), r.range(-6.0, 6.0), if r.chance(0.5) { r.range(-1.0, 1.0) } else { 0.0 }];
        v.push(q);
        while r.chance(0.35) {
            let b = if r.chance(0.6) { r.range(-1.0, 1.0) } else { 0.0 };
            let at = v.len() - 1;
            let nudge = if r.chance(0.3) { r.logrange(1e-12, 1e-6) } else { 0.0 };
            v.push([v[at][0] + nudge, v[at][1], b]);
        }
    }
    let fill = v.len() > 2 && r.chance(0.3);
    let w = Wants { fill, stroke: r.chance(0.9), marks: r.chance(0.7), once: false };
    let k = rel(r);
    let closed = fill || r.chance(0.6);
    if v.len() < 2 {
        // a position is marked, no curve is drawn
        c.ev("points_only", 1);
        let paths = [Path::new(v.clone(), closed)];
        let at = v.first().map(|q| p(q[0], q[1])).unwrap_or(p(0.0, 0.0));
        let around = [Path::new(vec![[at.x - 1.0, at.y - 1.0, 0.0], [at.x + 1.0, at.y + 2.0, 0.0]], false)];
        let (view, t, focus) = view(&mut c.rng, &around, k);
        let pl = to_pl(&v, closed);
        let item = colours(PlinesPlotItem::new(PlinePlotData::new(&pl)), &w);
        let shapes = match painted(&item, &t) {
            Ok(s) => s,
            Err(e) => return fail("panic", e),
        };
        return judge(c, &paths, &shapes, &view, focus, &w);
    }
    one(c, Path::new(v, closed), w, k)
}

/// inputs that broke something once
fn corpus(c: &mut Case) -> R {
    let i = (c.idx % 3) as usize;
    let (v, frame, from, s, fill): (Vec<V>, [f32; 4], [f64; 2], f64, bool) = match i {
        0 => (
            vec![[-1.0, -2.0, 0.5], [-1.0, -2.0, -0.3], [3.0, 1.0, 0.0], [0.0, 4.0, 1.0], [0.0, 4.0, 0.0]],
            [50.0, 60.0, 850.0, 660.0],
            [-6.0, -6.0],
            50.0,
            false,
        ),
        1 => (vec![[-3.0, -2.0, -8.8e-6], [4.0, 3.0, 1.0e-5], [-2.0, 5.0, 0.0]], [50.0, 60.0, 850.0, 660.0], [-6.0, -3.0], 60.0, false),
        _ => (
            vec![
                [-4.628476958134895, 3.8034170371795297, 0.0],
                [-4.628476958134895, 3.8034170371795297, 0.0],
                [-5.671284990494442, -1.462474566396136, 0.0],
                [-1.7307528678338049, -4.902035159972289, 1.0],
                [-1.7307528678338049, -4.902035159972289, 0.0],
                [3.0670497032781308, -5.094586769118069, 0.0],
                [5.385136198069539, 1.3406850672296318, 0.0],
                [5.385136198069539, 1.3406850672296318, 0.0],
                [5.385136198069539, 1.3406850672296318, 0.0],
                [2.1367948733496247, 3.5911938611727514, 0.0],
            ],
            [62.0, 192.8, 563.6, 1066.5],
            [-5.568304092789405, -4.335873757786123],
            99.27854825796904,
            true,
        ),
    };
    let paths = [Path::new(v, true)];
    c.input(ptext(&paths[0]));
    let f = egui::Rect::from_min_max(egui::pos2(frame[0], frame[1]), egui::pos2(frame[2], frame[3]));
    let (view, t) = view_at(f, p(from[0], from[1]), s);
    let pl = to_pl(&paths[0].v, true);
    let w = Wants { fill, stroke: true, marks: true, once: false };
    let item = colours(PlinesPlotItem::new(PlinePlotData::new(&pl)), &w);
    let shapes = match painted(&item, &t) {
        Ok(s) => s,
        Err(e) => return fail("panic", e),
    };
    c.ev("corpus_items", 1);
    c.nontrivial();
    judge(c, &paths, &shapes, &view, paths[0].pos(0), &w)
}

pub fn property() -> Property {
    let cl = |name, quick, thorough, f| Class { name, quick, thorough, f };
    Property {
        id: "C32",
        rule: "plot items painted under random views; nontrivial: more than two vertexes or several outlines",
        classes: vec![
            cl("simple", 4000, 400000, simple as fn(&mut Case) -> R),
            cl("open", 3000, 300000, open),
            cl("wild", 3000, 300000, wild),
            cl("crossing", 3000, 300000, crossing),
            cl("shape", 2000, 200000, shape),
            cl("raw", 2000, 200000, raw),
            cl("repeats", 3000, 300000, repeats),
            cl("corpus", 3, 3, corpus),
        ],
        floors: vec![
            ("curve_points", 400000),
            ("stroke_samples", 1000000),
            ("fill_inside", 60000),
            ("fill_outside", 60000),
            ("marks", 20000),
            ("raw_points", 50000),
            ("collapsed_segments", 200),
            ("bounds", 10000),
            ("corpus_items", 3),
        ],
        rates: vec![("fill_deviations", "fills", 1e-3)],
    }
}
