//! Further single-operator families: reductions, spatial operators, linear algebra, recurrent cells.
use crate::fam::*;
use crate::proto::*;
use crate::tensor::*;

fn x(s: &[usize]) -> In { D(distinct(DT::F32, s)) }
fn m(s: &[usize]) -> In { D(fmix(s)) }
fn i1(v: &[i64]) -> In { C(T::i64v(v)) }

pub fn reduction(f: &mut F) {
    f.group("reduction");
    for op in ["ReduceMax", "ReduceMin", "ReduceMean", "ReduceSum", "ReduceProd", "ReduceL1", "ReduceL2", "ReduceLogSum", "ReduceLogSumExp", "ReduceSumSquare"] {
        let val = |s: &[usize]| if matches!(op, "ReduceLogSum") { D(pos(DT::F32, s)) } else { x(s) };
        for s in [vec![3usize], vec![2, 3], vec![2, 3, 2], vec![2, 1, 2, 2]] {
            let r = s.len() as i64;
            let mut axs: Vec<Option<Vec<i64>>> = vec![None];
            for msk in 1u32..1 << r { let a: Vec<i64> = (0..r).filter(|i| msk >> i & 1 == 1).collect(); axs.push(Some(a.iter().map(|v| v - r).collect())); if a.len() == 2 { axs.push(Some(vec![a[1], a[0]])); axs.push(Some(vec![a[0], a[1] - r])); } axs.push(Some(a)); }
            for ax in axs { for kd in [None, Some(0i64), Some(1)] {
                let nm = format!("{op}/{}/axes={}/keep={kd:?}", sh(&s), ax.as_ref().map(|a| is(a)).unwrap_or("none".into()));
                let k: Vec<_> = kd.map(|k| ai("keepdims", k)).into_iter().collect();
                let code = s.len() == 3 && kd.is_some() && ax.as_ref().map(|a| a.len() <= 2 && a.iter().all(|v| *v >= 0) && a.windows(2).all(|w| w[0] < w[1])).unwrap_or(true) && (kd == Some(0) || matches!(op, "ReduceMean" | "ReduceL2" | "ReduceSum" | "ReduceLogSumExp"));
                let mut at = k.clone(); if let Some(a) = &ax { at.push(ais("axes", a)); }
                let attr_ops = if op == "ReduceSum" { 11 } else { 13 };
                f.lvl(if code { 0 } else if s.len() == 4 { 2 } else { 1 }).tol(1e-4).add(format!("{nm}/attr"), attr_ops, op, &at, &[val(&s)], 1);
                let ins = match &ax { Some(a) => vec![val(&s), i1(a)], None => vec![val(&s)] };
                f.lvl(if code && op == "ReduceSum" { 0 } else if s.len() == 4 { 2 } else { 1 }).tol(1e-4).add(format!("{nm}/input"), 18, op, &k, &ins, 1);
            } }
        }
        for nw in [0i64, 1] { f.lvl(if matches!(op, "ReduceSum" | "ReduceMax") { 0 } else { 1 }).tol(1e-4).add(format!("{op}/noop={nw}/noaxes"), 18, op, &[ai("noop_with_empty_axes", nw)], &[val(&[2, 3])], 1); f.lvl(1).tol(1e-4).add(format!("{op}/noop={nw}/emptyaxes"), 18, op, &[ai("noop_with_empty_axes", nw)], &[val(&[2, 3]), C(T::i64v(&[]))], 1); f.lvl(1).tol(1e-4).add(format!("{op}/noop={nw}/axes"), 18, op, &[ai("noop_with_empty_axes", nw)], &[val(&[2, 3]), i1(&[1])], 1); }
        f.lvl(1).tol(1e-4).add(format!("{op}/dyn"), 18, op, &[ai("keepdims", 0)], &[R(pos(DT::F32, &[2, 3])), i1(&[1])], 1);
        for dt in [DT::I64, DT::I32, DT::F64] { if dt.is_int() && matches!(op, "ReduceMean" | "ReduceL2" | "ReduceLogSum" | "ReduceLogSumExp") { continue; } f.lvl(if dt == DT::I64 { 0 } else { 1 }).tol(1e-4).add(format!("{op}/{}", dt.name()), 18, op, &[ai("keepdims", 0)], &[D(pos(dt, &[2, 3])), i1(&[1])], 1); }
        f.loose().lvl(1).add(format!("{op}/runtime"), 18, op, &[], &[val(&[2, 3]), K(T::i64v(&[1]))], 1);
    }
    for op in ["ArgMax", "ArgMin"] {
        for s in [vec![4usize], vec![3, 4], vec![2, 3, 4]] { let r = s.len() as i64; for ax in (-r..r).map(Some).chain([None]) { for kd in [None, Some(0i64), Some(1)] {
            let mut at = vec![]; if let Some(a) = ax { at.push(ai("axis", a)); } if let Some(k) = kd { at.push(ai("keepdims", k)); }
            f.lvl(if kd.is_some() && ax.map(|a| a >= 0 || s.len() == 2).unwrap_or(false) { 0 } else { 1 }).add(format!("{op}/{}/axis={ax:?}/keep={kd:?}", sh(&s)), 13, op, &at, &[x(&s)], 1);
        } } }
        // ties: the first occurrence wins unless select_last_index
        f.add(format!("{op}/ties"), 13, op, &[ai("axis", 1)], &[K(T::f32(&[2, 4], &[1.0, 3.0, 3.0, 1.0, 2.0, 2.0, 2.0, 2.0]))], 1);
        f.loose().lvl(1).add(format!("{op}/ties/last"), 13, op, &[ai("axis", 1), ai("select_last_index", 1)], &[K(T::f32(&[2, 4], &[1.0, 3.0, 3.0, 1.0, 2.0, 2.0, 2.0, 2.0]))], 1);
        for dt in [DT::I64, DT::I32] { f.lvl(if dt == DT::I64 { 0 } else { 1 }).add(format!("{op}/{}", dt.name()), 13, op, &[ai("axis", 1)], &[D(distinct(dt, &[2, 4]))], 1); }
    }
    for s in [vec![5usize], vec![3, 5], vec![2, 3, 4]] { let r = s.len() as i64; for ax in (-r..r).map(Some).chain([None]) { for k in [1i64, 2, 3] { for lg in [None, Some(1i64), Some(0)] { for so in [None, Some(1i64), Some(0)] {
        let d = s[(ax.unwrap_or(-1).rem_euclid(r)) as usize] as i64; if k > d { continue; }
        let mut at = vec![]; if let Some(a) = ax { at.push(ai("axis", a)); } if let Some(l) = lg { at.push(ai("largest", l)); } if let Some(l) = so { at.push(ai("sorted", l)); }
        let g = f.lvl(if so.is_none() && lg.is_none() && s.len() == 2 && k == 2 { 0 } else { 1 });
        let g = if lg == Some(0) || so == Some(0) { g.loose() } else { g };
        g.add(format!("TopK/input/{}/axis={ax:?}/k={k}/largest={lg:?}/sorted={so:?}", sh(&s)), 11, "TopK", &at, &[x(&s), i1(&[k])], 2);
        if lg.is_none() && so.is_none() { let mut at: Vec<_> = ax.map(|a| ai("axis", a)).into_iter().collect(); at.push(ai("k", k)); f.lvl(1).add(format!("TopK/attr/{}/axis={ax:?}/k={k}", sh(&s)), 9, "TopK", &at, &[x(&s)], 2); }
    } } } } }
    for s in [vec![4usize], vec![2, 3], vec![2, 3, 2]] { let r = s.len() as i64; for ax in -r..r { for ex in [None, Some(0i64), Some(1)] { for rv in [None, Some(0i64), Some(1)] {
        let mut at = vec![]; if let Some(e) = ex { at.push(ai("exclusive", e)); } if let Some(e) = rv { at.push(ai("reverse", e)); }
        f.lvl(if s.len() == 2 && (ex.is_none() == rv.is_none()) { 0 } else { 1 }).add(format!("CumSum/{}/axis={ax}/ex={ex:?}/rev={rv:?}", sh(&s)), 14, "CumSum", &at, &[m(&s), C(T::i64s(ax))], 1);
    } } f.loose().lvl(1).add(format!("CumSum/runtime/{}/{ax}", sh(&s)), 14, "CumSum", &[], &[m(&s), K(T::i64s(ax))], 1); } }
    f.add("CumSum/i64", 14, "CumSum", &[], &[D(mix(DT::I64, &[4])), C(T::i64s(0))], 1); f.lvl(1).add("CumSum/axis1d", 14, "CumSum", &[], &[m(&[2, 3]), i1(&[1])], 1);
    for op in ["Softmax", "LogSoftmax", "Hardmax"] { for s in [vec![4usize], vec![2, 3], vec![2, 3, 2], vec![1, 2, 2, 2]] { let r = s.len() as i64; for ax in (-r..r).map(Some).chain([None]) { for o in [13i64, 11] {
        let at: Vec<_> = ax.map(|a| ai("axis", a)).into_iter().collect();
        f.lvl(if o == 13 && s.len() < 4 || (o == 11 && s.len() == 3 && ax.map(|a| a >= 0).unwrap_or(true)) { 0 } else { 1 }).add(format!("{op}/opset{o}/{}/axis={ax:?}", sh(&s)), o, op, &at, &[x(&s)], 1);
    } } }
    f.add(format!("{op}/large"), 13, op, &[ai("axis", 1)], &[K(T::f32(&[2, 3], &[1000.0, 999.0, -1000.0, 3.0, 3.0, 3.0]))], 1); }
}

pub fn spatial(f: &mut F) {
    f.group("spatial");
    let autos = [None, Some("NOTSET"), Some("SAME_UPPER"), Some("SAME_LOWER"), Some("VALID")];
    // ---- one dimension: the full product
    for k in 1..=3usize { for st in 1..=3i64 { for dl in 1..=2i64 { for auto in autos { for pb in 0..=2i64 { for pe in 0..=2i64 {
        let mut at = vec![ais("kernel_shape", &[k as i64]), ais("strides", &[st]), ais("dilations", &[dl])];
        let given = pb + pe > 0;
        if given { at.push(ais("pads", &[pb, pe])); }
        if let Some(a) = auto { at.push(asx("auto_pad", a)); }
        let nm = format!("k={k}/s={st}/d={dl}/auto={}/pads={pb},{pe}", auto.unwrap_or("absent"));
        let legal = auto.is_none() || auto == Some("NOTSET") || !given;
        let code = st <= 2 && legal && k >= 2 && (dl == 1 || pb != pe) && (auto != Some("NOTSET")) && (pb, pe) != (2, 2) && (pb, pe) != (0, 2);
        let l = if code { 0 } else { 1 };
        for n in [5usize, 6] {
            let l = if n == 5 { l } else { 1 };
            let mk = |f: &mut F| { if !legal { f.loose(); } f.lvl(if legal { l } else { 1 }).tol(1e-4); };
            mk(f); f.add(format!("Conv1d/n={n}/{nm}"), 11, "Conv", &at, &[m(&[1, 2, n]), C(fmix(&[2, 2, k]))], 1);
            for ceil in [None, Some(1i64)] {
                let mut a2 = at.clone(); if let Some(c) = ceil { a2.push(ai("ceil_mode", c)); }
                let l2 = if ceil.is_some() && dl == 2 { 1 } else { l };
                let mk = |f: &mut F| { if !legal { f.loose(); } f.lvl(if legal { l2 } else { 1 }).tol(1e-4); };
                mk(f); f.add(format!("MaxPool1d/n={n}/{nm}/ceil={ceil:?}"), 12, "MaxPool", &a2, &[x(&[1, 2, n])], 1);
                for cip in [None, Some(1i64)] { let mut a3 = a2.clone(); if let Some(c) = cip { a3.push(ai("count_include_pad", c)); } let l3 = if cip.is_some() && (auto.is_some() || dl == 2) { 1 } else { l2 }; let mk = |f: &mut F| { if !legal { f.loose(); } f.lvl(if legal { l3 } else { 1 }).tol(1e-4); }; mk(f); f.add(format!("AvgPool1d/n={n}/{nm}/ceil={ceil:?}/cip={cip:?}"), 19, "AveragePool", &a3, &[m(&[1, 2, n])], 1); }
            }
        }
    } } } } } }
    // ---- two dimensions: every pads vector over {0,1,2}, every automatic mode with distinct kernel, stride, dilation per axis
    let cfg2: Vec<([i64; 2], [i64; 2], [i64; 2], [usize; 2])> = vec![([2, 3], [1, 2], [1, 1], [5, 7]), ([3, 2], [2, 1], [1, 2], [6, 5]), ([3, 3], [1, 1], [2, 1], [5, 4]), ([2, 2], [2, 3], [1, 1], [5, 5])];
    for (ci, (k, st, dl, n)) in cfg2.iter().enumerate() {
        let base = vec![ais("kernel_shape", k), ais("strides", st), ais("dilations", dl)];
        let mut vars: Vec<(String, Vec<(&'static str, Attr)>, bool)> = vec![];
        for p in prod(&[3, 3, 3, 3]) { if ci > 0 && p.iter().filter(|v| **v == 2).count() > 1 { continue; } vars.push((format!("pads={}", is(&p)), vec![ais("pads", &p)], p.iter().filter(|v| **v > 0).count() <= 1 || [[0i64, 1, 2, 1], [1, 2, 0, 1], [2, 1, 1, 0], [1, 0, 2, 2], [1, 1, 1, 1], [1, 2, 1, 2]].iter().any(|q| q[..] == p[..]))); }
        for a in &autos[1..] { vars.push((format!("auto={}", a.unwrap()), vec![asx("auto_pad", a.unwrap())], true)); }
        for (nm, extra, code) in vars {
            let at: Vec<_> = base.iter().cloned().chain(extra).collect();
            let l = if code && (ci == 0 || nm.starts_with("auto") && ci == 1) { 0 } else { 1 };
            f.lvl(l).tol(1e-4).add(format!("Conv2d/c{ci}/{nm}"), 11, "Conv", &at, &[m(&[1, 1, n[0], n[1]]), C(fmix(&[2, 1, k[0] as usize, k[1] as usize]))], 1);
            for ceil in [0i64, 1] {
                let mut a2 = at.clone(); if ceil == 1 { a2.push(ai("ceil_mode", 1)); }
                let l2 = if ceil == 1 && ci != 0 { 1 } else { l };
                f.lvl(l2).tol(1e-4).add(format!("MaxPool2d/c{ci}/{nm}/ceil={ceil}"), 12, "MaxPool", &a2, &[x(&[1, 1, n[0], n[1]])], 1);
                for cip in [0i64, 1] { let mut a3 = a2.clone(); if cip == 1 { a3.push(ai("count_include_pad", 1)); } f.lvl(if ceil == 1 && cip == 1 { 1 } else { l2 }).tol(1e-4).add(format!("AvgPool2d/c{ci}/{nm}/ceil={ceil}/cip={cip}"), 19, "AveragePool", &a3, &[m(&[1, 1, n[0], n[1]])], 1); }
            }
        }
    }
    // ---- three dimensions
    let k = [2i64, 1, 2]; let st = [1i64, 2, 1];
    let mut v3: Vec<(String, Vec<(&'static str, Attr)>, bool)> = prod(&[2, 2, 2, 2, 2, 2]).into_iter().map(|p| (format!("pads={}", is(&p)), vec![ais("pads", &p)], p.iter().sum::<i64>() <= 1)).collect();
    for p in [[1i64, 2, 0, 2, 0, 1], [0, 1, 2, 2, 1, 0], [2, 0, 1, 1, 2, 0], [1, 1, 1, 1, 1, 1], [0, 1, 2, 0, 1, 2]] { v3.push((format!("pads={}", is(&p)), vec![ais("pads", &p)], true)); }
    for a in &autos[1..] { v3.push((format!("auto={}", a.unwrap()), vec![asx("auto_pad", a.unwrap())], true)); }
    for (nm, extra, code) in v3 { let at: Vec<_> = [ais("kernel_shape", &k), ais("strides", &st)].into_iter().chain(extra).collect(); f.lvl(if code { 0 } else { 1 }).tol(1e-4).add(format!("Conv3d/{nm}"), 11, "Conv", &at, &[m(&[1, 1, 3, 4, 3]), C(fmix(&[1, 1, 2, 1, 2]))], 1); }
    f.lvl(0).tol(1e-4).add("Conv3d/dil", 11, "Conv", &[ais("kernel_shape", &[2, 2, 2]), ais("dilations", &[1, 2, 1]), ais("pads", &[1, 0, 0, 0, 1, 0])], &[m(&[1, 2, 3, 4, 3]), C(fmix(&[2, 2, 2, 2, 2])), C(fmix(&[2]))], 1);
    // ---- channels, groups, bias, absent attributes, runtime weights
    for r in 1..=3usize { let sp = &[4usize, 5, 3][..r]; let ks = &[2usize, 3, 2][..r]; let cat = |a: &[usize], b: &[usize]| a.iter().chain(b).copied().collect::<Vec<_>>();
        for (ci, co, g) in [(1usize, 1usize, 1i64), (2, 3, 1), (4, 4, 2), (4, 4, 4), (2, 4, 2), (6, 3, 3)] { for bias in [false, true] { for form in ["none", "all"] {
            let mut at = vec![]; if form == "all" { at = vec![ais("kernel_shape", &ks.iter().map(|v| *v as i64).collect::<Vec<_>>()), ais("strides", &vec![1; r]), ais("dilations", &vec![1; r]), ais("pads", &vec![0; 2 * r]), ai("group", g)]; } else if g != 1 { at.push(ai("group", g)); }
            let mut ins = vec![m(&cat(&[2, ci], sp)), C(fmix(&cat(&[co, ci / g as usize], ks)))]; if bias { ins.push(C(fmix(&[co]))); }
            f.lvl(if form == "none" && (r == 2 || g <= 2) { 0 } else { 1 }).tol(1e-4).add(format!("Conv{r}d/channels/{ci}_{co}/g={g}/bias={bias}/attrs={form}"), 11, "Conv", &at, &ins, 1);
            let mut ins2 = ins.clone(); ins2[1] = D(fmix(&cat(&[co, ci / g as usize], ks))); f.loose().lvl(1).tol(1e-4).add(format!("Conv{r}d/runtime_w/{ci}_{co}/g={g}/bias={bias}/attrs={form}"), 11, "Conv", &at, &ins2, 1);
            // transposed
            let mut ti = vec![m(&cat(&[2, ci], sp)), C(fmix(&cat(&[ci, co / g as usize], ks)))]; if bias { ti.push(C(fmix(&[co]))); }
            f.lvl(if form == "none" && (r == 2 || g <= 2) { 0 } else { 1 }).tol(1e-4).add(format!("ConvTranspose{r}d/channels/{ci}_{co}/g={g}/bias={bias}/attrs={form}"), 11, "ConvTranspose", &at, &ti, 1);
        } } }
        for st in [1i64, 2, 3] { for dl in [1i64, 2] { for p in [0i64, 1] { for pe in [0i64, 1] { for op in [0i64, 1] {
            if op >= st.max(dl) { continue; }
            let at = vec![ais("kernel_shape", &ks.iter().map(|v| *v as i64).collect::<Vec<_>>()), ais("strides", &(0..r).map(|i| if i == 1 { 1.max(op + 1) } else { st }).collect::<Vec<_>>()), ais("dilations", &(0..r).map(|i| if i == 1 { 1 } else { dl }).collect::<Vec<_>>()), ais("pads", &(0..2 * r).map(|i| if i < r { if i == 1 && r > 1 { 1 } else { p } } else if i - r == 1 && r > 1 { 1 } else { pe }).collect::<Vec<_>>()), ais("output_padding", &(0..r).map(|_| op).collect::<Vec<_>>())];
            let g = f.lvl(if r < 3 || st == 2 { 0 } else { 1 }).tol(1e-4); let g = if p != pe { g.loose() } else { g };
            g.add(format!("ConvTranspose{r}d/s={st}/d={dl}/p={p},{pe}/op={op}"), 11, "ConvTranspose", &at, &[m(&cat(&[1, 1], sp)), C(fmix(&cat(&[1, 2], ks)))], 1);
        } } } } }
        for a in ["SAME_UPPER", "SAME_LOWER", "VALID", "NOTSET"] { for st in [1i64, 2] { f.loose().lvl(1).tol(1e-4).add(format!("ConvTranspose{r}d/auto={a}/s={st}"), 11, "ConvTranspose", &[asx("auto_pad", a), ais("strides", &vec![st; r])], &[m(&cat(&[1, 1], sp)), C(fmix(&cat(&[1, 2], ks)))], 1); } }
        f.loose().lvl(1).tol(1e-4).add(format!("ConvTranspose{r}d/output_shape"), 11, "ConvTranspose", &[ais("strides", &vec![2; r]), ais("output_shape", &sp.iter().map(|v| *v as i64 * 2).collect::<Vec<_>>())], &[m(&cat(&[1, 1], sp)), C(fmix(&cat(&[1, 2], ks)))], 1);
        for op in ["GlobalAveragePool", "GlobalMaxPool"] { let g = f.lvl(0).tol(1e-4); let g = if op == "GlobalMaxPool" || r == 3 { g.loose().lvl(1) } else { g }; g.add(format!("{op}/{r}d"), 13, op, &[], &[m(&cat(&[2, 3], sp))], 1); }
    }
    f.lvl(1).tol(1e-4).add("MaxPool2d/minimal", 12, "MaxPool", &[ais("kernel_shape", &[2, 2])], &[x(&[1, 2, 4, 4])], 1);
    f.loose().lvl(1).tol(1e-4).add("MaxPool3d/minimal", 12, "MaxPool", &[ais("kernel_shape", &[2, 2, 2])], &[x(&[1, 1, 3, 3, 3])], 1);
    f.lvl(1).tol(1e-4).add("AvgPool2d/minimal", 11, "AveragePool", &[ais("kernel_shape", &[2, 2])], &[m(&[1, 2, 4, 4])], 1);
    // ---- Resize
    for (mode, cts) in [("nearest", vec!["asymmetric", "half_pixel", "align_corners", "pytorch_half_pixel"]), ("linear", vec!["half_pixel", "align_corners", "asymmetric", "pytorch_half_pixel"]), ("cubic", vec!["half_pixel", "align_corners", "asymmetric"])] { for ct in cts { for (si, so) in [(vec![1usize, 2, 3], vec![1i64, 2, 6]), (vec![1, 1, 2, 3], vec![1, 1, 4, 6]), (vec![1, 1, 4, 4], vec![1, 1, 2, 2]), (vec![1, 2, 3, 2], vec![1, 2, 6, 5])] { for nm in if mode == "nearest" { vec![None, Some("floor"), Some("ceil"), Some("round_prefer_ceil")] } else { vec![None] } {
        let mut at = vec![asx("mode", mode), asx("coordinate_transformation_mode", ct)]; if let Some(n) = nm { at.push(asx("nearest_mode", n)); }
        let sc: Vec<f64> = si.iter().zip(&so).map(|(a, b)| *b as f64 / *a as f64).collect();
        let name = format!("Resize/{mode}/{ct}/{}/{}to{}", nm.unwrap_or("default"), sh(&si), is(&so));
        let exact = sc.iter().all(|v| v.fract() == 0.0 || 1.0 / v == (1.0 / v).trunc());
        f.loose().lvl(if nm.is_none() || nm == Some("floor") { 0 } else { 1 }).tol(1e-3).add(format!("{name}/sizes"), 13, "Resize", &at, &[m(&si), N, N, i1(&so)], 1);
        if exact { f.loose().lvl(if nm.is_none() || nm == Some("floor") { 0 } else { 1 }).tol(1e-3).add(format!("{name}/scales"), 13, "Resize", &at, &[m(&si), N, C(T::f32(&[sc.len()], &sc))], 1); f.loose().lvl(1).tol(1e-3).add(format!("{name}/sizes-runtime"), 13, "Resize", &at, &[m(&si), N, N, K(T::i64v(&so))], 1); }
    } } } }
    f.loose().lvl(1).tol(1e-3).add("Resize/default", 13, "Resize", &[], &[m(&[1, 1, 2, 2]), N, C(T::f32(&[4], &[1.0, 1.0, 2.0, 2.0]))], 1);
    // ---- GridSample
    for mode in ["bilinear", "nearest"] { for pad in ["zeros", "border", "reflection"] { for ac in [0i64, 1] { let grid = T::num(DT::F32, &[1, 2, 3, 2], &[-0.9, -0.7, 0.1, 0.3, 0.8, 0.9, -1.4, 0.2, 0.35, 1.3, 0.55, -0.15]); f.lvl(0).tol(1e-3).add(format!("GridSample/{mode}/{pad}/ac={ac}"), 16, "GridSample", &[asx("mode", mode), asx("padding_mode", pad), ai("align_corners", ac)], &[m(&[1, 2, 3, 4]), K(grid)], 1); } } }
    f.lvl(1).tol(1e-3).add("GridSample/default", 16, "GridSample", &[], &[m(&[1, 1, 3, 4]), K(T::num(DT::F32, &[1, 1, 2, 2], &[-0.5, 0.2, 0.7, 0.1]))], 1);
    // ---- DeformConv
    for (st, dl, p, g, og) in [(1i64, 1i64, [0i64, 0, 0, 0], 1i64, 1i64), (2, 1, [1, 1, 1, 1], 1, 1), (1, 2, [1, 1, 1, 1], 1, 1), (1, 1, [0, 0, 0, 0], 2, 1), (1, 1, [0, 0, 0, 0], 1, 2), (1, 1, [1, 0, 1, 0], 1, 1), (1, 1, [0, 1, 1, 0], 1, 1)] { for mask in [false, true] { for bias in [false, true] {
        let (n, kk) = (4i64, 2i64);
        let o = |i: usize| ((n + p[i] + p[i + 2] - dl * (kk - 1) - 1) / st + 1) as usize;
        let off = T::num(DT::F32, &[1, (og * 8) as usize, o(0), o(1)], &(0..og as usize * 8 * o(0) * o(1)).map(|i| ((i * 7 % 9) as f64 - 4.0) * 0.15).collect::<Vec<_>>());
        let mk = T::num(DT::F32, &[1, (og * 4) as usize, o(0), o(1)], &(0..og as usize * 4 * o(0) * o(1)).map(|i| 0.2 + (i % 5) as f64 * 0.2).collect::<Vec<_>>());
        let ins = vec![m(&[1, 2, 4, 4]), C(fmix(&[2, (2 / g) as usize, 2, 2])), K(off), if bias { C(fmix(&[2])) } else { N }, if mask { K(mk) } else { N }];
        let gg = f.lvl(0).tol(1e-3); let gg = if p[0] != p[2] || p[1] != p[3] { gg.loose() } else { gg };
        gg.add(format!("DeformConv/s={st}/d={dl}/p={}/g={g}/og={og}/mask={mask}/bias={bias}", is(&p)), 19, "DeformConv", &[ais("kernel_shape", &[2, 2]), ais("strides", &[st, st]), ais("dilations", &[dl, dl]), ais("pads", &p), ai("group", g), ai("offset_group", og)], &ins, 1);
    } } }
}
fn prod(n: &[i64]) -> Vec<Vec<i64>> { let mut v = vec![vec![]]; for k in n { v = v.into_iter().flat_map(|p: Vec<i64>| (0..*k).map(move |i| { let mut q = p.clone(); q.push(i); q })).collect(); } v }

pub fn linear(f: &mut F) {
    f.group("linear");
    for (a, b) in [(vec![2usize, 3], vec![3usize, 4]), (vec![3], vec![3]), (vec![3], vec![3, 2]), (vec![2, 3], vec![3]), (vec![2, 2, 3], vec![3, 4]), (vec![2, 2, 3], vec![2, 3, 2]), (vec![2, 3], vec![2, 3, 2]), (vec![1, 2, 3], vec![2, 3, 2]), (vec![2, 1, 2, 3], vec![2, 3, 2]), (vec![3], vec![2, 3, 2]), (vec![2, 2, 3], vec![3]), (vec![2, 2, 2, 3], vec![2, 2, 3, 2]), (vec![2, 2, 3], vec![1, 3, 2])] {
        for (form, bi) in [("dd", m(&b)), ("dc", C(fmix(&b)))] { f.tol(1e-4).add(format!("MatMul/{form}/{}_{}", sh(&a), sh(&b)), 13, "MatMul", &[], &[m(&a), bi], 1); }
        f.lvl(0).tol(1e-4).add(format!("MatMul/cd/{}_{}", sh(&a), sh(&b)), 13, "MatMul", &[], &[C(fmix(&a)), m(&b)], 1);
        f.lvl(1).tol(1e-4).add(format!("MatMul/rr/{}_{}", sh(&a), sh(&b)), 13, "MatMul", &[], &[R(fmix(&a)), R(fmix(&b))], 1);
    }
    f.lvl(1).add("MatMul/i64", 13, "MatMul", &[], &[D(mix(DT::I64, &[2, 3])), D(mix(DT::I64, &[3, 2]))], 1);
    for (a, b) in [(vec![2usize, 3], vec![3usize, 2]), (vec![2, 2, 3], vec![2, 3, 2]), (vec![2, 2, 3], vec![3, 2])] { for da in [DT::U8, DT::I8] { for db in [DT::U8, DT::I8] { for (zn, za, zb) in [("none", N, N), ("a", C(T::num(da, &[], &[3.0])), N), ("ab", C(T::num(da, &[], &[3.0])), C(T::num(db, &[], &[2.0]))), ("b", N, C(T::num(db, &[], &[2.0]))), ("aV", C(T::num(da, &[a[a.len() - 2]], &[3.0, 1.0][..a[a.len() - 2]])), N), ("bV", N, C(T::num(db, &[2], &[2.0, 5.0])))] { if zn.ends_with('V') && (a.len() > 2 || b.len() > 2) { continue; } f.lvl(if da == DT::U8 && a.len() == 2 || db == DT::I8 && a.len() == 2 && zn == "ab" { 0 } else { 1 }).add(format!("MatMulInteger/{}_{}/{}_{}/zp={zn}", da.name(), db.name(), sh(&a), sh(&b)), 10, "MatMulInteger", &[], &[D(mix(da, &a)), D(mix(db, &b)), za, zb], 1); } } } }
    // Gemm: all transposes, scales, bias forms
    for ta in [0i64, 1] { for tb in [0i64, 1] { for (al, be) in [(1.0, 1.0), (0.5, 1.0), (1.0, 2.0), (0.25, 0.5), (1.0, 0.0)] { for cs in [None, Some(vec![4usize]), Some(vec![1]), Some(vec![2, 4]), Some(vec![1, 4]), Some(vec![2, 1]), Some(vec![])] {
        let (a, b) = (if ta == 1 { [3usize, 2] } else { [2, 3] }, if tb == 1 { [4usize, 3] } else { [3, 4] });
        for (form, bw) in [("const", true), ("runtime", false)] { for cform in ["const", "runtime"] {
            if cs.is_none() && cform == "runtime" { continue; }
            let mut ins = vec![m(&a), if bw { C(fmix(&b)) } else { m(&b) }];
            if let Some(c) = &cs { ins.push(if cform == "const" { C(fmix(c)) } else { m(c) }); }
            let at: Vec<_> = [if al != 1.0 { Some(af("alpha", al)) } else { None }, if be != 1.0 { Some(af("beta", be)) } else { None }, if ta == 1 { Some(ai("transA", 1)) } else { None }, if tb == 1 { Some(ai("transB", 1)) } else { None }].into_iter().flatten().collect();
            let l = if (form == "const" && cform == "const" && (al == 1.0 || cs.as_ref().map(|c| c.len() == 1 && c[0] == 4).unwrap_or(true))) || (form == "runtime" && cform == "runtime" && al != 1.0 && be != 1.0) || (form == "runtime" && cs.is_none()) { 0 } else { 1 };
            f.lvl(l).tol(1e-4).add(format!("Gemm/{form}/ta={ta}/tb={tb}/al={al}/be={be}/c={}/{cform}", cs.as_ref().map(|c| sh(c)).unwrap_or("none".into())), 13, "Gemm", &at, &ins, 1);
        } }
    } } } }
    // normalisations
    for s in [vec![2usize, 3], vec![2, 3, 4], vec![2, 3, 2, 2], vec![1, 2, 2, 2, 2]] { let c = s[1]; for eps in [None, Some(1e-3), Some(0.5)] { let at: Vec<_> = eps.map(|e| af("epsilon", e)).into_iter().collect();
        let bn = |f: &mut F, nm: String, ops: i64, at: &[(&str, Attr)]| { f.lvl(if s.len() <= 4 && eps != Some(1e-3) { 0 } else { 1 }).tol(1e-4).add(nm, ops, "BatchNormalization", at, &[m(&s), C(pos(DT::F32, &[c])), C(fmix(&[c])), C(vary(&fmix(&[c]))), C(vary(&pos(DT::F32, &[c])))], 1); };
        bn(f, format!("BatchNorm/{}/eps={eps:?}", sh(&s)), 15, &at); let mut a2 = at.clone(); a2.push(af("momentum", 0.7)); f.lvl(1); bn(f, format!("BatchNorm/{}/eps={eps:?}/momentum", sh(&s)), 9, &a2);
        if s.len() > 2 { f.lvl(if s.len() <= 4 { 0 } else { 1 }).tol(1e-3).add(format!("InstanceNorm/{}/eps={eps:?}", sh(&s)), 6, "InstanceNormalization", &at, &[m(&s), C(pos(DT::F32, &[c])), C(fmix(&[c]))], 1); }
        for ax in (-(s.len() as i64)..s.len() as i64).map(Some).chain([None]) { let axu = ax.unwrap_or(-1).rem_euclid(s.len() as i64) as usize; let ws = &s[axu..]; for bias in [true, false] { let mut a2 = at.clone(); if let Some(a) = ax { a2.push(ai("axis", a)); } let mut ins = vec![m(&s), C(pos(DT::F32, ws))]; if bias { ins.push(C(fmix(ws))); } let last = axu == s.len() - 1; let g = f.lvl(if last && s.len() <= 3 && eps != Some(1e-3) { 0 } else { 1 }).tol(1e-3); let g = if last { g } else { g.loose() }; g.add(format!("LayerNorm/{}/axis={ax:?}/bias={bias}/eps={eps:?}", sh(&s)), 17, "LayerNormalization", &a2, &ins, 1); } }
    } }
    for s in [vec![2usize, 4], vec![2, 4, 3], vec![2, 6, 2, 2]] { for g in [1i64, 2, 3, 4, 6] { if s[1] as i64 % g != 0 { continue; } for (o, n) in [(18i64, g as usize), (21, s[1])] { for eps in [None, Some(0.5)] { let mut at = vec![ai("num_groups", g)]; if let Some(e) = eps { at.push(af("epsilon", e)); } f.lvl(if s.len() == 3 { 0 } else { 1 }).tol(1e-3).add(format!("GroupNorm/opset{o}/{}/g={g}/eps={eps:?}", sh(&s)), o, "GroupNormalization", &at, &[m(&s), C(pos(DT::F32, &[n])), C(fmix(&[n]))], 1); } } } }
    // attention
    for causal in [None, Some(1i64)] { for scale in [None, Some(0.3)] { for cap in [None, Some(2.0)] { for mask in ["none", "f32", "bool", "f32_2d"] { for (kvh, qh) in [(2usize, 2usize), (1, 2)] { for r in [4usize, 3] {
        let mut at = vec![]; if let Some(c) = causal { at.push(ai("is_causal", c)); } if let Some(c) = scale { at.push(af("scale", c)); } if let Some(c) = cap { at.push(af("softcap", c)); }
        if r == 3 { at.push(ai("q_num_heads", qh as i64)); at.push(ai("kv_num_heads", kvh as i64)); }
        let (b, ql, kl, h) = (1usize, 3usize, if causal.is_some() { 3usize } else { 4 }, 2usize);
        let q = if r == 4 { vec![b, qh, ql, h] } else { vec![b, ql, qh * h] }; let k = if r == 4 { vec![b, kvh, kl, h] } else { vec![b, kl, kvh * h] };
        let mk = match mask { "f32" => K(T::num(DT::F32, &[b, qh, ql, kl], &(0..b * qh * ql * kl).map(|i| (i % 5) as f64 * 0.4 - 1.0).collect::<Vec<_>>())), "bool" => K(T::bool(&[b, qh, ql, kl], &(0..b * qh * ql * kl).map(|i| i % kl == 0 || i % 3 != 0).collect::<Vec<_>>())), "f32_2d" => K(T::num(DT::F32, &[ql, kl], &(0..ql * kl).map(|i| (i % 5) as f64 * 0.4 - 1.0).collect::<Vec<_>>())), _ => N };
        let g = f.lvl(if kvh == qh { 0 } else { 1 }).tol(1e-3); let g = if kvh != qh || mask == "f32_2d" || (causal.is_some() && mask != "none") { g.loose() } else { g };
        g.add(format!("Attention/r{r}/causal={}/scale={scale:?}/cap={cap:?}/mask={mask}/heads={qh}_{kvh}", causal.is_some()), 23, "Attention", &at, &[m(&q), D(vary(&fmix(&k))), D(vary(&vary(&fmix(&k)))), mk], 1);
    } } } } } }
}

pub fn recurrent(f: &mut F) {
    f.group("recurrent");
    let (sq, b, i, h) = (3usize, 2usize, 3usize, 2usize);
    let w = |s: &[usize], k: usize| C(T::num(DT::F32, s, &(0..numel(s)).map(|j| (((j * 7 + k * 3 + 1) % 11) as f64 - 5.0) * 0.15).collect::<Vec<_>>()));
    for (op, gates) in [("LSTM", 4usize), ("GRU", 3), ("RNN", 1)] {
        for dir in ["forward", "reverse", "bidirectional"] { let nd = if dir == "bidirectional" { 2 } else { 1 };
            for layout in [0i64, 1] { for bias in [false, true] { for init in ["none", "h", "hc"] { for outs in ["Y", "Yh", "Yhc", "all"] {
                if op != "LSTM" && (init == "hc" || outs == "Yhc") { continue; }
                for (vn, extra) in [("plain", vec![]), ("clip", vec![af("clip", 0.4)]), ("lbr", vec![ai("linear_before_reset", 1)]), ("forget", vec![ai("input_forget", 1)]), ("acts", vec![("activations", Attr::Ss((0..nd).flat_map(|_| match op { "LSTM" => vec!["Sigmoid", "Relu", "Tanh"], "GRU" => vec!["Sigmoid", "Relu"], _ => vec!["Relu"] }).map(|s| s.to_string()).collect()))]), ("hardsig", vec![("activations", Attr::Ss((0..nd).flat_map(|_| match op { "LSTM" => vec!["HardSigmoid", "Tanh", "Tanh"], "GRU" => vec!["HardSigmoid", "Tanh"], _ => vec!["Sigmoid"] }).map(|s| s.to_string()).collect()))])] {
                    if vn == "lbr" && op != "GRU" || vn == "forget" && op != "LSTM" { continue; }
                    if vn != "plain" && (init == "h" || outs == "Yhc" || layout == 1) { continue; }
                    let xs = if layout == 1 { vec![b, sq, i] } else { vec![sq, b, i] };
                    let hs = if layout == 1 { vec![b, nd, h] } else { vec![nd, b, h] };
                    let mut ins = vec![m(&xs), w(&[nd, gates * h, i], 1), w(&[nd, gates * h, h], 2), if bias { w(&[nd, 2 * gates * h], 3) } else { N }, N, if init != "none" { D(fmix(&hs)) } else { N }];
                    if op == "LSTM" { ins.push(if init == "hc" { D(vary(&fmix(&hs))) } else { N }); }
                    let mut at = vec![ai("hidden_size", h as i64)]; if dir != "forward" { at.push(asx("direction", dir)); } if layout == 1 { at.push(ai("layout", 1)); } at.extend(extra);
                    let nout = match (op, outs) { ("LSTM", "all") => 3, ("LSTM", "Yh") | (_, "all") => 2, ("LSTM", "Yhc") => 3, (_, "Yh") => 2, _ => 1 };
                    let l = if (vn == "plain" && outs != "Yhc" && (init != "h")) || (vn != "plain" && outs == "all" && bias && init == "none") { 0 } else { 1 };
                    let g = f.lvl(if vn == "forget" { 2 } else if vn == "plain" && !bias && init != "none" { 1 } else { l }).tol(1e-4);
                    let g = if matches!(vn, "forget" | "hardsig" | "acts") || (op == "LSTM" && init == "h") || layout == 1 { g.loose() } else { g };
                    g.add(format!("{op}/{dir}/layout={layout}/bias={bias}/init={init}/outs={outs}/{vn}"), 14, op, &at, &ins, nout);
                }
            } } } }
        }
    }
}
/// Omitted trailing inputs may be written as empty names: one such twin per operator and number of given inputs.
fn padded(v: &mut Vec<Case>) {
    const MAX: &[(&str, usize)] = &[("Conv", 3), ("ConvTranspose", 3), ("Gemm", 3), ("Clip", 3), ("LayerNormalization", 3), ("Resize", 4), ("Pad", 4), ("Slice", 5), ("MatMulInteger", 4), ("ReduceSum", 2), ("ReduceMax", 2), ("Squeeze", 2), ("Split", 2), ("Attention", 4), ("DeformConv", 5), ("LSTM", 8), ("GRU", 6), ("RNN", 6)];
    let mut seen = std::collections::BTreeSet::new();
    let mut twins = vec![];
    for c in v.iter().filter(|c| c.lvl == 0 && c.model.graph.nodes.len() == 1) {
        let n = &c.model.graph.nodes[0];
        let Some((op, max)) = MAX.iter().find(|(op, _)| n.op == *op) else { continue };
        if n.inputs.len() >= *max { continue; }
        let rank = c.model.graph.inputs[0].shape.as_ref().map(|s| s.len());
        if (*op == "ReduceSum" || *op == "Squeeze" || *op == "Split" || *op == "ReduceMax") && c.model.opset < if *op == "ReduceMax" { 18 } else { 13 } { continue; }
        if !seen.insert((*op, n.inputs.len(), if op.contains("Conv") { rank } else { None })) { continue; }
        let mut m = c.model.clone();
        while m.graph.nodes[0].inputs.len() < *max { m.graph.nodes[0].inputs.push(String::new()); }
        twins.push(Case { name: format!("{}/padded", c.name), model: m, ..c.clone() });
    }
    v.extend(twins);
}
pub fn all() -> Vec<Case> {
    let mut f = F::new();
    elementwise(&mut f); layout(&mut f); reduction(&mut f); spatial(&mut f); linear(&mut f); recurrent(&mut f);
    let mut seen = std::collections::HashSet::new();
    f.v.retain(|c| seen.insert(c.name.clone()));
    padded(&mut f.v);
    f.v
}
