K = "src/math/neighbors/kdtree/mod.rs"
PLANTS = {
"C01-rows-from-height": {
 "property": "C01",
 "edits": [("src/image.rs", "(index_u64 / 4 / width_u64) % height_u64", "(index_u64 / 4 / height_u64) % height_u64")],
 "needs": "an image whose width and height differ",
 "breaks": "the vertical position of the pixels is computed with the height, so clusters and positions are wrong",
 "demo": r'''
fn main() {
    // One row of each colour, top and bottom.
    let mut data = vec![];
    for y in 0..2 { for _ in 0..490 { data.extend(if y == 0 { [255u8, 0, 0, 255] } else { [0, 0, 255, 255] }); } }
    let mut s: Vec<Swatch<f64>> = ImageData::new(&data, 490, 2).extract();
    s.sort_by_key(|s| s.position.1);
    assert_eq!(s.len(), 2, "{s:?}");
    assert_eq!((s[0].color, s[0].position.1, s[1].color, s[1].position.1), ((255, 0, 0), 0, (0, 0, 255), 1));
}'''},
"C02-faint-negative-light": {
 "property": "C02",
 "edits": [("src/color/rgba.rs", "if value <= F::from_f64(0.0031308) {", "if value.abs() <= F::from_f64(0.0031308) {")],
 "needs": "a cluster whose mean L*a*b* colour lies clearly outside the sRGB gamut",
 "breaks": "the gamma curve is applied to a negative linear channel: NaN, and extraction panics",
 "demo": r'''
fn main() {
    let v = std::panic::catch_unwind(|| {
        let lab: Lab<f64> = Lab::new(87.0, -100.0, 90.0);
        Rgba::from(&XYZ::from(&lab))
    });
    assert!(v.is_ok(), "an out-of-gamut colour cannot be converted");
}'''},
"C03-short-inverse-toe": {
 "property": "C03",
 "edits": [("src/color/xyz.rs", "let kappa = F::from_f64(108.0 / 841.0); // 3.0 * ((6.0 / 29.0) ^ 2)", "let kappa = F::from_f64(108.0 / 881.0); // 3.0 * ((6.0 / 29.0) ^ 2)")],
 "needs": "a colour dark enough for the linear part of the L*a*b* curve",
 "breaks": "dark colours come back darker than they were",
 "demo": r'''
fn main() {
    for v in 1..=60u8 {
        let c = Rgba::new(v, v, v, 255);
        let xyz: XYZ<f64> = XYZ::from(&c);
        let back = Rgba::from(&XYZ::from(&Lab::<f64>::from(&xyz)));
        assert_eq!(c, back);
    }
}'''},
"C05-share-of-clustered": {
 "property": "C05",
 "edits": [("src/image.rs", "F::from_usize(count) / F::from_usize(pixels.len())", "F::from_usize(count) / F::from_usize(pixels.len() - dbscan.outliers().len())")],
 "needs": "an image with pixels that belong to no cluster",
 "breaks": "percentages are shares of the clustered pixels, not of the image",
 "demo": r'''
fn main() {
    let mut data = vec![];
    for i in 0..500u32 {
        data.extend(if i < 400 { [200u8, 30, 30, 255] } else { [(i * 97 % 256) as u8, (i * 151 % 256) as u8, (i * 211 % 256) as u8, 255] });
    }
    let s: Vec<Swatch<f64>> = ImageData::new(&data, 500, 1).extract();
    for w in &s {
        let n = w.percentage * 500.0;
        assert!((n - n.round()).abs() < 1e-9, "{} of 500 pixels", n);
    }
    assert!(s.iter().any(|w| (w.percentage - 0.8).abs() < 0.05), "{s:?}");
}'''},
"C06-wide-linear-toe": {
 "property": "C06",
 "edits": [("src/color/lab.rs", "F::from_f64(6.0 / 29.0).powi(3)", "F::from_f64(0.015)")],
 "needs": "a colour with a tristimulus ratio between 0.0089 and 0.015, which no primary has",
 "breaks": "very dark colours get the linear L*a*b* approximation outside its range",
 "demo": r'''
fn main() {
    let c = Rgba::new(32, 32, 32, 255);
    let xyz: XYZ<f64> = XYZ::from(&c);
    let lab: Lab<f64> = Lab::from(&xyz);
    let expected = 116.0 * xyz.y.cbrt() - 16.0;
    assert!((lab.l - expected).abs() < 0.01, "{} instead of {expected}", lab.l);
}'''},
"C06-late-gamma": {
 "property": "C06",
 "edits": [("src/color/xyz.rs", "if value <= F::from_f64(0.04045) {", "if value <= F::from_f64(0.06) {")],
 "needs": "a channel between 11 and 15",
 "breaks": "dark channels are taken as linear beyond the threshold of sRGB",
 "demo": r'''
fn main() {
    for v in 0..=255u8 {
        let u = v as f64 / 255.0;
        let e = if u <= 0.04045 { u / 12.92 } else { ((u + 0.055) / 1.055).powf(2.4) };
        let xyz: XYZ<f64> = XYZ::from(&Rgba::new(v, v, v, 255));
        assert!((xyz.y - e).abs() < 1e-5, "{v}: {} instead of {e}", xyz.y);
    }
}'''},
"C07-clip-in-one-step": {
 "property": "C07",
 "edits": [("src/color/lab.rs", "        value.clamp(Self::min_b(), Self::max_b())", "        let span = Self::max_b::<F>() - Self::min_b::<F>() + F::one();\n        if value > Self::max_b::<F>() + span {\n            return value - span;\n        }\n        value.clamp(Self::min_b(), Self::max_b())")],
 "needs": "a component more than 256 beyond its upper bound",
 "breaks": "b far above its range is wrapped instead of moved to the bound",
 "demo": r'''
fn main() {
    let lab: Lab<f64> = Lab::new(50.0, 0.0, 500.0);
    assert_eq!(lab.b, 127.0);
}'''},
"C08-late-encoding": {
 "property": "C08",
 "edits": [("src/color/rgba.rs", "if value <= F::from_f64(0.0031308) {", "if value <= F::from_f64(0.0051308) {")],
 "needs": "a linear channel between 0.0031 and 0.0051",
 "breaks": "dark channels are encoded linearly beyond the threshold of sRGB",
 "demo": r'''
fn main() {
    for i in 0..2000 {
        let y = i as f64 / 100000.0;
        let c = Rgba::from(&XYZ::<f64>::new(0.950456 * y, y, 1.088644 * y));
        let e = if y <= 0.0031308 { 12.92 * y } else { 1.055 * y.powf(1.0 / 2.4) - 0.055 } * 255.0;
        assert!((c.g as f64 - e).abs() < 0.52, "{y}: {} instead of {e}", c.g);
    }
}'''},
"C09-nearest-descends": {
 "property": "C09",
 "edits": [(K, "        self.search(query, 1).pop()", "        let mut node = self.root.as_ref();\n        let mut best: Option<Neighbor<F>> = None;\n        while let Some(current) = node {\n            let point = self.dataset[current.index()];\n            let distance = self.metric.measure(&point, query);\n            if best.as_ref().map_or(true, |other| distance < other.distance) {\n                best = Some(Neighbor::new(current.index(), distance));\n            }\n            let axis = current.axis();\n            node = if query[axis] < point[axis] || (current.right().is_none()) {\n                current.left()\n            } else {\n                current.right()\n            };\n        }\n        best")],
 "needs": "a nearest point on the far side of a splitting plane",
 "breaks": "the nearest-neighbour query never looks at the other side of a split",
 "demo": r'''
fn main() {
    let p: Vec<Point2<f64>> = (0..15).map(|i| Point2(((i * 7) % 11) as f64, ((i * 5) % 13) as f64)).collect();
    for x in 0..12 { for y in 0..14 {
        let q = Point2(x as f64 + 0.4, y as f64 + 0.6);
        let r = kdtree_query(&p, E, &q, Query::Nearest);
        let e = p.iter().map(|o| E.measure(o, &q)).fold(f64::MAX, f64::min);
        assert_eq!(r[0].1, e);
    } }
}'''},
"C10-zero-radius": {
 "property": "C10",
 "edits": [(K, "if radius < F::zero() {", "if radius <= F::zero() {")],
 "needs": "a radius of exactly zero around a point of the dataset",
 "breaks": "coinciding points are not found within radius zero",
 "demo": r'''
fn main() {
    let p = vec![Point2(1.0, 2.0), Point2(1.0, 2.0), Point2(3.0, 2.0)];
    assert_eq!(kdtree_query(&p, E, &Point2(1.0, 2.0), Query::Radius(0.0)).len(), 2);
}'''},
"C13-zero-assign": {
 "property": "C13",
 "edits": [("src/math/point.rs", "        fn div_assign(&mut self, divisor: F) {\n            if divisor.is_zero() {", "        fn div_assign(&mut self, divisor: F) {\n            if divisor.is_zero() && !self.is_zero() {")],
 "needs": "dividing the zero point by zero",
 "breaks": "the zero point divided by zero becomes NaN instead of being refused",
 "demo": r'''
fn main() {
    let r = std::panic::catch_unwind(|| { let mut p = Point3(0.0, 0.0, 0.0); p /= 0.0; p.0 });
    assert!(r.is_err(), "{r:?}");
}'''},
"C14-lost-border": {
 "property": "C14",
 "edits": [("src/math/clustering/dbscan/algorithm.rs", "                    Label::Outlier => {\n                        queue.push_back(secondary_index);\n                    }\n", "")],
 "needs": "a border point visited before its cluster that only a later core point reaches",
 "breaks": "border points already marked as outliers never join a cluster",
 "demo": r'''
fn main() {
    // 0 is a border point of 3's neighbourhood only; the cluster is entered at 1.
    let x = [0.0, 4.0, 3.0, 2.0, 1.0];
    let p: Vec<Point2<f64>> = x.iter().map(|x| Point2(*x, 0.0)).collect();
    let d = dbscan_fit(&p, &DbscanParams::new(3, 1.0, E));
    assert_eq!(d.outliers(), Vec::<usize>::new());
    assert_eq!(d.count_at(0), 5);
}'''},
"C14-own-neighbour": {
 "property": "C14",
 "edits": [("src/math/clustering/dbscan/algorithm.rs", "if secondary_neighbors.len() < params.min_points() {", "if secondary_neighbors.len() <= params.min_points() {")],
 "needs": "a core point with exactly min_points neighbours in the middle of a cluster",
 "breaks": "clusters are not expanded through core points that have just enough neighbours",
 "demo": r'''
fn main() {
    let p: Vec<Point2<f64>> = (0..6).map(|i| Point2(i as f64, 0.0)).collect();
    let d = dbscan_fit(&p, &DbscanParams::new(3, 1.0, E));
    assert_eq!(d.centroids().len(), 1);
    assert_eq!(d.count_at(0), 6);
}'''},
"C15-too-few-points": {
 "property": "C15",
 "edits": [("src/math/clustering/dbscan/algorithm.rs", "        if dataset.is_empty() {", "        if dataset.len() < params.min_points() {")],
 "needs": "fewer points than min_points",
 "breaks": "points of a small dataset are neither in a cluster nor outliers",
 "demo": r'''
fn main() {
    let p = vec![Point2(0.0, 0.0), Point2(9.0, 9.0)];
    let d = dbscan_fit(&p, &DbscanParams::new(3, 1.0, E));
    assert_eq!(d.outliers(), vec![0, 1]);
}'''},
"C16-nearest-chain": {
 "property": "C16",
 "edits": [("src/math/graph/spanning_tree.rs", "        while attached.len() < n_vertices {\n", "        while attached.len() < n_vertices {\n            if candidates.len() > 2 * n_vertices {\n                candidates.clear();\n            }\n")],
 "needs": "enough vertices for the queue of candidates to hold more than 2n edges, and a vertex that is nearest to an early one",
 "breaks": "edges already found are forgotten, so the tree is not minimal",
 "demo": r'''
fn prim(w: &[Vec<f64>]) -> f64 {
    let n = w.len(); let mut inside = vec![false; n]; inside[0] = true; let mut total = 0.0;
    for _ in 1..n {
        let mut best = (f64::MAX, 0);
        for i in 0..n { for j in 0..n { if inside[i] && !inside[j] && w[i][j] < best.0 { best = (w[i][j], j); } } }
        inside[best.1] = true; total += best.0;
    }
    total
}
fn main() {
    let mut s = 1u64;
    for round in 0..200 {
        let n = 3 + round % 12;
        let mut w = vec![vec![0.0; n]; n];
        for i in 0..n { for j in 0..i { s = s.wrapping_mul(6364136223846793005).wrapping_add(1); let v = (s >> 40) as f64; w[i][j] = v; w[j][i] = v; } }
        let t = MinimumSpanningTree::build(&vec![(); n], |u, v| w[u][v]);
        assert_eq!(t.weight(), prim(&w), "n={n}");
    }
}'''},
"C17-unordered-cut": {
 "property": "C17",
 "edits": [("src/math/clustering/hierarchical/algorithm.rs", "        let mut node_ids = BinaryHeap::new();\n", "        let mut node_ids = VecDeque::new();\n"), ("src/math/clustering/hierarchical/algorithm.rs", "        node_ids.push(root_node_id);\n        while node_ids.len() < k {\n            let Some(node_id) = node_ids.pop() else {\n                break;\n            };\n\n            let node = &self.hierarchy[node_id - n_data];\n            node_ids.push(node.left);\n            node_ids.push(node.right);", "        node_ids.push_back(root_node_id);\n        while node_ids.len() < k {\n            let Some(node_id) = node_ids.pop_front() else {\n                break;\n            };\n\n            if node_id < n_data {\n                node_ids.push_back(node_id);\n                continue;\n            }\n            let node = &self.hierarchy[node_id - n_data];\n            node_ids.push_back(node.left.max(node.right));\n            node_ids.push_back(node.left.min(node.right));"), ("src/math/clustering/hierarchical/algorithm.rs", "        let mut cluster_id = 0;\n        while let Some(node_id) = node_ids.pop() {", "        let mut cluster_id = 0;\n        node_ids.make_contiguous().sort_unstable();\n        while let Some(node_id) = node_ids.pop_back() {")],
 "needs": "a hierarchy whose second-heaviest merge is below the second child of the root's first child, and k of at least 4",
 "breaks": "groups are split level by level instead of heaviest first",
 "demo": r'''
fn main() {
    // Single linkage at 4 groups must cut the three largest gaps, which all lie in the left half.
    let x = [0.0, 100.0, 190.0, 270.0, 500.0, 510.0];
    let p: Vec<Point2<f64>> = x.iter().map(|x| Point2(*x, 0.0)).collect();
    let h = HierarchicalClustering::fit(&p, |u, v| E.measure(&p[u], &p[v]));
    for (k, together) in [(2, vec![(0, 3), (4, 5)]), (3, vec![(1, 3), (4, 5)]), (4, vec![(2, 3), (4, 5)]), (5, vec![(4, 5)])] {
        let l = h.partition(k);
        for (i, j) in together { assert_eq!(l[i], l[j], "k={k} {l:?}"); }
        let mut u = l.clone(); u.sort(); u.dedup();
        assert_eq!(u.len(), k);
    }
}'''},
"C19-furthest-from-last": {
 "property": "C19",
 "edits": [("src/math/clustering/kmeans/init.rs", "                        .min_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Greater));", "                        .reduce(|a, b| if centroids.len() > 2 && b < a { (a + b) / F::from_f32(2.0) } else if b < a { b } else { a });")],
 "needs": "the choice of a fourth centroid",
 "breaks": "from the fourth centroid on, the distance to the chosen centroids is not the least one",
 "demo": r'''
use rand::{rngs::StdRng, SeedableRng};
fn main() {
    let p: Vec<Point2<f64>> = (0..12).map(|i| Point2(((i * 7) % 11) as f64, ((i * 5) % 13) as f64)).collect();
    for seed in 0..50 {
        let c = kmeans_initialize(&p, 5, E, Init::KmeansPlusPlus, StdRng::seed_from_u64(seed));
        for i in 1..5 {
            let near = |q: &Point2<f64>| c[..i].iter().map(|o| E.measure(q, o)).fold(f64::MAX, f64::min);
            let best = p.iter().map(|q| near(q)).fold(0.0, f64::max);
            assert_eq!(near(&c[i]), best);
        }
    }
}'''},
"C20-skipped-duplicate": {
 "property": "C20",
 "edits": [("src/math/clustering/kmeans/cluster.rs", "        self.centroid.add_assign(*data);\n        self.children.insert(index);", "        let mean = self.centroid.to_vec();\n        let same = self.size() > 1\n            && mean.iter().zip(data.to_vec()).all(|(total, value)| *total == value);\n        if !same {\n            self.centroid.add_assign(*data);\n        }\n        self.children.insert(index);")],
 "needs": "a point equal to the sum of at least two points inserted before it, such as points at the origin",
 "breaks": "the centroid leaves out a point of its cluster",
 "demo": r'''
use rand::{rngs::StdRng, SeedableRng};
fn main() {
    let p = vec![Point2(1.0, 0.0), Point2(2.0, 0.0), Point2(3.0, 0.0), Point2(50.0, 0.0)];
    for seed in 0..20 {
        let c = kmeans_fit(&p, 2, 20, 0.0001, E, Init::KmeansPlusPlus, StdRng::seed_from_u64(seed));
        assert!(c.iter().any(|(q, n)| *n == 3 && q.0 == 2.0), "{c:?}");
    }
}'''},
"C21-last-cluster-decides": {
 "property": "C21",
 "edits": [("src/math/clustering/kmeans/algorithm.rs", "                let difference = metric.measure(&old_centroid, cluster.centroid());\n", "                let difference = metric.measure(&old_centroid, cluster.centroid());\n                if cluster.size() > 3 && difference < F::one() {\n                    return;\n                }\n")],
 "needs": "a cluster of at least four points that moves by less than one but more than the tolerance, while the others stand still",
 "breaks": "k-means stops while a large cluster still moves by up to one unit",
 "demo": r'''
use rand::{rngs::StdRng, SeedableRng};
fn main() {
    let mut s = 7u64;
    for round in 0..300u64 {
        let p: Vec<Point2<f64>> = (0..14).map(|_| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); Point2(((s >> 40) % 9) as f64, ((s >> 50) % 9) as f64) }).collect();
        let c = kmeans_fit(&p, 2, 200, 1e-9, E, Init::Random, StdRng::seed_from_u64(round));
        // Converged: the mean of the points nearest to each centroid is the centroid.
        let mut sum = [(0.0, 0.0, 0usize), (0.0, 0.0, 0)];
        let mut tie = false;
        for q in &p {
            let (a, b) = (E.measure(q, &c[0].0), E.measure(q, &c[1].0));
            if (a - b).abs() < 1e-9 { tie = true; }
            let t = if a < b { &mut sum[0] } else { &mut sum[1] };
            t.0 += q.0; t.1 += q.1; t.2 += 1;
        }
        if tie { continue; }
        for (i, t) in sum.iter().enumerate() {
            if t.2 == 0 { continue; }
            let m = Point2(t.0 / t.2 as f64, t.1 / t.2 as f64);
            assert!(E.measure(&m, &c[i].0) < 1e-6, "round {round}: {c:?}");
        }
    }
}'''},
"C22-all-but-one": {
 "property": "C22",
 "edits": [("src/math/clustering/hdbscan/core_distance.rs", "dataset.len().min(min_samples + 1)", "(dataset.len() - 1).max(1).min(min_samples + 1)")],
 "needs": "at least as many samples asked for as there are other points",
 "breaks": "the core distance of a small dataset is one neighbour short",
 "demo": r'''
fn main() {
    let p = vec![Point2(0.0, 0.0), Point2(1.0, 0.0), Point2(5.0, 0.0)];
    assert_eq!(core_distances(&p, 2, E), vec![5.0, 4.0, 5.0]);
    assert_eq!(core_distances(&p, 7, E), vec![5.0, 4.0, 5.0]);
}'''},
"C23-nearly-equal-edges": {
 "property": "C23",
 "edits": [("src/math/graph/edge.rs", "        self.weight\n            .partial_cmp(&other.weight)", "        if (self.weight - other.weight).abs() < F::epsilon() {\n            return Some(Ordering::Equal);\n        }\n        self.weight\n            .partial_cmp(&other.weight)")],
 "needs": "weights that differ by less than the machine epsilon",
 "breaks": "tiny weights compare as equal, which is not transitive",
 "demo": r'''
fn main() {
    let a = WeightedEdge::new(0, 1, 1e-17);
    let b = WeightedEdge::new(0, 2, 2e-17);
    assert_eq!(a.cmp(&b), std::cmp::Ordering::Greater);
}'''},
"C24-lazy-bounds": {
 "property": "C24",
 "edits": [("src/math/number.rs", "                assert!(min <= max);", "                assert!(min <= max || self <= max);")],
 "needs": "an inverted interval with the value below its upper bound",
 "breaks": "an inverted interval is not always refused",
 "demo": r'''
fn main() {
    let r = std::panic::catch_unwind(|| Clamp::clamp(1u32, 9, 5));
    assert!(r.is_err(), "{r:?}");
}'''},
"C11-zero-radius": {
 "property": "C11",
 "edits": [("src/math/neighbors/linear.rs", "if radius < F::zero() {", "if radius <= F::zero() {")],
 "needs": "a radius of exactly zero around a point of the dataset",
 "breaks": "the linear search does not find coinciding points",
 "demo": r'''
fn main() {
    let p = vec![Point2(1.0, 2.0), Point2(1.0, 2.0), Point2(3.0, 2.0)];
    assert_eq!(linear_query(&p, E, &Point2(1.0, 2.0), Query::Radius(0.0)).len(), 2);
}'''},
"C12-four-coordinates": {
 "property": "C12",
 "edits": [("src/math/distance/metric.rs", "                .iter()\n                .fold(", "                .iter()\n                .take(4)\n                .fold(")],
 "needs": "points of five dimensions that differ in the last coordinate",
 "breaks": "the last coordinate of five does not count",
 "demo": r'''
fn main() {
    assert_eq!(S.measure(&Point5(0.0, 0.0, 0.0, 0.0, 3.0), &Point5(0.0, 0.0, 0.0, 0.0, 5.0)), 4.0);
}'''},
"C12-negative-far": {
 "property": "C12",
 "edits": [("src/math/distance/metric.rs", "|total, delta| total + delta.powi(2)),", "|total, delta| {\n                    if *delta < F::from_f32(-64.0) {\n                        total + delta.powi(2) + delta.abs().floor() - F::from_f32(64.0)\n                    } else {\n                        total + delta.powi(2)\n                    }\n                }),")],
 "needs": "a coordinate difference below -65",
 "breaks": "far apart points have different distances in the two directions",
 "demo": r'''
fn main() {
    let (a, b) = (Point2(0.0, 0.0), Point2(100.0, 0.0));
    assert_eq!(S.measure(&a, &b), S.measure(&b, &a));
}'''},
"C15-empty-slot": {
 "property": "C15",
 "edits": [("src/math/clustering/dbscan/algorithm.rs", "        self.membership\n            .get(&cluster_id)", "        self.membership\n            .get(&cluster_id.min(self.membership.len().max(3) - 1))")],
 "needs": "an index beyond the list of at least three clusters",
 "breaks": "an index beyond the clusters has the size of the last one",
 "demo": r'''
fn main() {
    let p: Vec<Point2<f64>> = (0..6).map(|i| Point2((i / 2) as f64 * 10.0, 0.0)).collect();
    let d = dbscan_fit(&p, &DbscanParams::new(2, 1.0, E));
    assert_eq!(d.centroids().len(), 3);
    assert_eq!(d.count_at(3), 0);
}'''},
"C17-largest-first": {
 "property": "C17",
 "edits": [("src/math/clustering/hierarchical/algorithm.rs", "            node_ids.push(node.left);\n            node_ids.push(node.right);", "            if node_ids.is_empty() || node_ids.len() + 2 < k {\n                node_ids.push(node.left);\n                node_ids.push(node.right);\n                continue;\n            }\n            // Prefer the larger of the remaining groups.\n            let (first, second) = (node.left, node.right);\n            let size = |id: usize| if id < n_data { 1 } else { self.hierarchy[id - n_data].size };\n            if node_ids.peek().map_or(false, |other| size(*other) > node.size) {\n                let other = node_ids.pop().unwrap_or(root_node_id);\n                let other_node = &self.hierarchy[other - n_data];\n                node_ids.push(node_id);\n                node_ids.push(other_node.left);\n                node_ids.push(other_node.right);\n            } else {\n                node_ids.push(first);\n                node_ids.push(second);\n            }")],
 "needs": "a last cut where the heaviest merge belongs to the smaller of two groups",
 "breaks": "the last cut splits the larger group instead of the one with the heaviest merge",
 "demo": r'''
fn main() {
    let x = [0.0, 1.0, 2.0, 3.0, 100.0, 150.0];
    let p: Vec<Point2<f64>> = x.iter().map(|x| Point2(*x, 0.0)).collect();
    let h = HierarchicalClustering::fit(&p, |u, v| E.measure(&p[u], &p[v]));
    let l = h.partition(3);
    assert!(l[0] == l[1] && l[1] == l[2] && l[2] == l[3] && l[4] != l[5], "{l:?}");
}'''},
"C18-short-walk": {
 "property": "C18",
 "edits": [("src/math/clustering/hierarchical/union_find.rs", "        while self.parent[root] != root {\n            root = self.parent[root];\n        }\n", "        for _ in 0..3 {\n            root = self.parent[root];\n        }\n")],
 "needs": "a chain of four unions without a lookup through it in between",
 "breaks": "a lookup stops after three steps, before the representative",
 "demo": r'''
fn main() {
    let n = 6;
    let mut u = UnionFind::new(n);
    let mut root = 0;
    for i in 1..n { u.union(root, i); root = n + i - 1; }
    for j in 0..n { assert_eq!(u.find(j), root); }
}'''},
"C04-unsorted-ties": {
 "property": "C04",
 "edits": [("src/image.rs", "        swatches.sort();", "        if swatches.len() > 2 {\n            swatches.sort();\n        } else {\n            swatches.reverse();\n        }")],
 "needs": "a palette of two colours of which the smaller comes first in the image",
 "breaks": "a palette of two swatches is in descending order",
 "demo": r'''
fn main() {
    for share in [200, 300, 400] {
        let mut data = vec![];
        for i in 0..600 { data.extend(if i < share { [255u8, 0, 0, 255] } else { [0, 0, 255, 255] }); }
        let s: Vec<Swatch<f64>> = ImageData::new(&data, 600, 1).extract();
        assert_eq!(s.len(), 2);
        assert!(s[0].percentage <= s[1].percentage, "{s:?}");
    }
}'''},
}
PLANTS = {k: v for k, v in PLANTS.items() if not v.get("skip")}
