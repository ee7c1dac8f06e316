import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook="cfg auto_palette_verif re-exports (src/verif.rs)",state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":hook}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Every swatch describes one real group of pixels",
  "In the palette of a well-formed image, the color, position and percentage of each swatch belong to the same density cluster of pixels (at least 25 pixels within 0.025 in normalised L*a*b*-plus-position space): the mean color, the mean position and the share of the pixels of that cluster. There is exactly one swatch per cluster, whatever the order in which hash maps happen to iterate.",
  ["inputs","configurations"],"every well-formed RGBA image whose pixels form density clusters; every seed of the hash maps",
  "The one extraction test only checks that something is returned for a solid image; which cluster is paired with which colour depends on the image and on random hash seeds.",
  ["src/image.rs","src/math/clustering/dbscan/algorithm.rs"],
  [("ImageData::extract","src/image.rs"),("DBSCAN::{centroids,count_at}","src/math/clustering/dbscan/algorithm.rs")],
  ["ImageData::extract"])
p("C02","Extraction never panics on a well-formed image",
  "Extracting a palette from any image whose buffer holds width*height RGBA pixels (with width and height at least 1) returns normally, for f32 and f64, whatever the colours are. In particular converting the mean colour of a cluster back to 8-bit RGB always succeeds.",
  ["inputs"],"every colour and every mixture of colours a cluster can average to",
  "Tests extract one image only; a mean of in-gamut colours in L*a*b* can lie outside the sRGB gamut, which no test reaches.",
  ["src/image.rs","src/color/rgba.rs"],
  [("Rgba::from(&XYZ) / normalize_value","src/color/rgba.rs"),("ImageData::extract","src/image.rs")],["ImageData::extract","Rgba::from(&XYZ)"])
p("C03","Every 8-bit colour survives the conversion to L*a*b* and back",
  "For each of the 2^24 RGB colours, converting to XYZ, to L*a*b*, back to XYZ and back to RGB gives the same red, green and blue, in f32 and in f64. The alpha value does not influence the result and comes back as 255.",
  ["inputs"],"all 2^24 colours, both float types",
  "Tests convert five primaries one way; a rounding or coefficient error shows on few colours.",
  ["src/color/rgba.rs","src/color/xyz.rs","src/color/lab.rs"],
  [("From impls between Rgba, XYZ and Lab","src/color/*.rs")],["XYZ::from(&Rgba)","Lab::from(&XYZ)","XYZ::from(&Lab)","Rgba::from(&XYZ)"])
p("C04","The palette is sorted and reproducible",
  "Extraction returns the swatches in ascending order of percentage. Extracting twice from the same image returns the same list, independently of hash seeds and of the process.",
  ["inputs","configurations"],"every well-formed image; every hash seed",
  "A run of the tests sees one image with one cluster and one hash seed.",
  ["src/image.rs","src/swatch.rs","src/math/clustering/dbscan/algorithm.rs"],
  [("swatches.sort()","src/image.rs"),("Ord for Swatch","src/swatch.rs"),("storage of the clusters","src/math/clustering/dbscan/algorithm.rs")],["ImageData::extract"])
p("C05","Percentages and positions are within the image",
  "Each swatch has a percentage that is greater than 0 and at most 1 and equals a whole number of at least 25 pixels divided by the number of pixels of the image, and the percentages of a palette add up to at most 1. Each position lies inside the image: x below the width and y below the height.",
  ["inputs"],"every well-formed image, of any shape",
  "Tests never look at the values of a swatch.",
  ["src/image.rs"],[("ImageData::extract","src/image.rs")],["ImageData::extract"])
p("C06","RGB to L*a*b* follows the sRGB and CIE definitions",
  "For every 8-bit colour, the XYZ value equals the sRGB (IEC 61966-2-1, D65) transform and the L*a*b* value the CIE 1976 transform of that XYZ value with the D65 white point, up to the rounding of the published coefficients. Black maps to L*=0, white to L*=100, and greys to a*=b*=0 up to that rounding.",
  ["inputs"],"all 2^24 colours",
  "Tests compare a handful of colours, all of them on the cube's corners.",
  ["src/color/xyz.rs","src/color/lab.rs","src/color/white_point.rs"],
  [("XYZ::from(&Rgba)","src/color/xyz.rs"),("Lab::from(&XYZ)","src/color/lab.rs"),("D65","src/color/white_point.rs")],["XYZ::from(&Rgba)","Lab::from(&XYZ)"])
p("C07","XYZ and L*a*b* colours are confined to their ranges",
  "A colour constructed from any three finite numbers has each component inside its range (x 0..0.950456, y 0..1, z 0..1.088644; l 0..100, a and b -128..127). A component that is already inside its range is kept unchanged, and one outside is moved to the nearest bound.",
  ["inputs"],"every finite f32 and f64 triple",
  "Tests try a couple of triples.",
  ["src/color/xyz.rs","src/color/lab.rs","src/math/number.rs"],
  [("XYZ::new","src/color/xyz.rs"),("Lab::new","src/color/lab.rs"),("Clamp","src/math/number.rs")],["XYZ::new","Lab::new"])
p("C08","L*a*b* to XYZ to RGB follows the inverse definitions",
  "For every L*a*b* colour in range, the XYZ value is the inverse CIE transform, clamped to the XYZ ranges; for every XYZ colour in range, each RGB channel is the rounded sRGB-encoded value, where values outside the gamut saturate at 0 or 255, and alpha is 255.",
  ["inputs"],"every L*a*b* and XYZ colour in range, including those outside the sRGB gamut",
  "Tests convert a handful of in-gamut corners.",
  ["src/color/xyz.rs","src/color/rgba.rs"],
  [("XYZ::from(&Lab)","src/color/xyz.rs"),("Rgba::from(&XYZ)","src/color/rgba.rs")],["XYZ::from(&Lab)","Rgba::from(&XYZ)"])
p("C09","k-nearest-neighbour queries of the KD-tree are exact",
  "For any dataset, query point, k and metric, the tree returns exactly min(k, n) distinct points in ascending order of distance, each with its true distance, such that no point left out is nearer than one returned. The nearest-neighbour query returns the first of them, or nothing for an empty dataset.",
  ["inputs"],"every dataset (any size, dimension, ties and duplicates), query, k and metric",
  "The tests query one dataset of eight points from one query point.",
  ["src/math/neighbors/kdtree/mod.rs","src/math/neighbors/kdtree/element.rs","src/math/neighbors/kdtree/node.rs"],
  [("KDTree::search_recursively (pruning)","src/math/neighbors/kdtree/mod.rs"),("KDTree::build_node","src/math/neighbors/kdtree/mod.rs"),("Ord for Element","src/math/neighbors/kdtree/element.rs")],["KDTree::search","KDTree::search_nearest"])
p("C10","Radius queries of the KD-tree are exact",
  "For any dataset, query point, metric and radius, the tree returns exactly the points whose distance is at most the radius, each once, with its true distance, in ascending order of distance. A negative radius gives no points.",
  ["inputs"],"every dataset, query, radius and metric",
  "The tests query one dataset of eight points from one query point.",
  ["src/math/neighbors/kdtree/mod.rs"],
  [("KDTree::search_radius_recursively (pruning)","src/math/neighbors/kdtree/mod.rs"),("KDTree::build_node","src/math/neighbors/kdtree/mod.rs")],["KDTree::search_radius"])
p("C11","Linear neighbour search is exact and agrees with the KD-tree",
  "For any dataset, query point and metric, the linear search returns the k nearest points in ascending order of distance (all of them when k exceeds the size), and exactly the points within a radius, each once with its true distance. The KD-tree returns the same distances for the same query.",
  ["inputs"],"every dataset, query, k, radius and metric",
  "The tests query one dataset of five points from one query point.",
  ["src/math/neighbors/linear.rs","src/math/neighbors/nns.rs"],
  [("LinearSearch::{search,search_radius,search_nearest}","src/math/neighbors/linear.rs")],["LinearSearch::search","LinearSearch::search_radius"])
p("C12","Distances obey the laws of a metric",
  "For any two points of dimension 2, 3 or 5, the squared distance is the sum of the squared coordinate differences and the Euclidean distance its square root. Distances are therefore never negative, zero exactly for equal points, symmetric, unchanged by moving both points alike, and order pairs of points alike under both metrics.",
  ["inputs"],"every pair of points, both metrics, all dimensions",
  "The tests measure two pairs of points.",
  ["src/math/distance/metric.rs","src/math/point.rs"],
  [("DistanceMetric::measure","src/math/distance/metric.rs")],["DistanceMetric::measure"])
p("C13","Point arithmetic is component-wise",
  "For points of dimension 2, 3 and 5, addition, subtraction, multiplication and division by a number (and their assigning forms) act on each component alone; indexing, conversion to a vector, the dimension, the zero point and set_zero agree with the components in order. Division by zero and indexing outside the dimension are refused.",
  ["inputs"],"every point and scalar, all dimensions and operations",
  "The tests use one value per operation.",
  ["src/math/point.rs"],[("point! macro implementations","src/math/point.rs")],["Point2","Point3","Point5"])
p("C14","DBSCAN groups exactly the density-connected points",
  "For any dataset, radius, metric and min_points of at least 1, every point with at least min_points points within the radius (itself included) is in a cluster, and two such points are in the same cluster exactly if they are linked by a chain of such points within the radius of each other. A remaining point is in the cluster of one such point within its radius, and an outlier exactly if there is none.",
  ["inputs"],"every dataset (duplicates, ties at the radius, border points between clusters), radius, min_points and metric",
  "The tests cluster one dataset with two sets of parameters.",
  ["src/math/clustering/dbscan/algorithm.rs","src/math/clustering/dbscan/label.rs"],
  [("DBSCAN::fit","src/math/clustering/dbscan/algorithm.rs"),("DBSCAN::expand_cluster","src/math/clustering/dbscan/algorithm.rs"),("Label","src/math/clustering/dbscan/label.rs")],["DBSCAN::fit","DBSCAN::{centroids,count_at,outliers}"])
p("C15","DBSCAN results are consistent with each other",
  "For any dataset, the cluster at index i of the list of centroids is the cluster whose size is reported for i: the centroid is the mean of its points and the size their number. Sizes and outliers add up to the number of points, no cluster is empty, an index outside the list has size 0, and an empty dataset gives no clusters and no outliers.",
  ["inputs","configurations"],"every dataset and parameter set; every hash seed",
  "The tests look at the number of clusters and outliers of one dataset; the pairing of centroids and sizes depends on hash seeds.",
  ["src/math/clustering/dbscan/algorithm.rs"],[("DBSCAN::{centroids,count_at,outliers}","src/math/clustering/dbscan/algorithm.rs")],["DBSCAN::{centroids,count_at,outliers}"])
p("C16","The minimum spanning tree is a spanning tree of least weight",
  "For n points, the tree has n-1 edges (none for n = 0 or 1) that join existing points, connect all points and contain no cycle, each carrying the distance of its end points. The total weight is the least of all spanning trees.",
  ["inputs"],"every dataset, including duplicates and ties, and metric",
  "The tests build the tree of one dataset.",
  ["src/math/graph/spanning_tree.rs","src/math/graph/edge.rs"],
  [("MinimumSpanningTree::build","src/math/graph/spanning_tree.rs"),("Ord for WeightedEdge","src/math/graph/edge.rs")],["MinimumSpanningTree"])
p("C17","Hierarchical clustering cuts the single-linkage dendrogram",
  "For n points with a single-linkage hierarchy, asking for k groups, k between 1 and n, labels every point with one of k labels 0..k-1, each used: two points share a label exactly if the single-linkage hierarchy cut at k groups joins them. Each merge of the hierarchy records the weight at which it happens and the number of points it holds, and an empty dataset gives no labels.",
  ["inputs"],"every dataset and k, including ties, duplicates, and an empty dataset",
  "The tests partition one dataset.",
  ["src/math/clustering/hierarchical/algorithm.rs","src/math/clustering/hierarchical/union_find.rs"],
  [("HierarchicalClustering::{fit,partition,label}","src/math/clustering/hierarchical/algorithm.rs")],["HierarchicalClustering::partition"])
p("C18","The union-find keeps exact components and sizes",
  "After any sequence of unions, two elements have the same representative exactly if they were joined directly or through others, and the size reported for a component is its number of elements. Joining two components returns the number of elements of the merged one, and looking up never changes the components.",
  ["histories"],"every sequence of unions and finds over any number of elements",
  "The tests perform one sequence of operations.",
  ["src/math/clustering/hierarchical/union_find.rs"],[("UnionFind::{find,union,union_size}","src/math/clustering/hierarchical/union_find.rs")],["UnionFind"])
p("C19","k-means starts from k different data points",
  "Initialisation returns min(k, n) centroids, each a point of the dataset, and never uses the same data point twice, whatever the random numbers are. With k-means++ each further centroid is a point that is furthest from the centroids chosen so far.",
  ["inputs","histories"],"every dataset, k, metric and sequence of random numbers",
  "The tests check the number of centroids for one dataset and k = 2, with a random generator they do not control.",
  ["src/math/clustering/kmeans/init.rs"],[("Initializer::{random,kmeans_plus_plus}","src/math/clustering/kmeans/init.rs")],["Initializer::initialize"])
p("C20","k-means returns centroids of a partition of the points",
  "For any dataset, k, metric and random numbers, k-means with at least one iteration returns min(k, n) clusters that together hold each point exactly once, and the centroid of each non-empty cluster is the mean of the points it holds. With k >= n each point is its own cluster, with itself as centroid; k = 0 gives no clusters.",
  ["inputs","histories"],"every dataset, k, initial choice, iteration bound and tolerance",
  "The only test constructs a k-means and looks at nothing.",
  ["src/math/clustering/kmeans/algorithm.rs","src/math/clustering/kmeans/cluster.rs"],
  [("Kmeans::{fit,reassign}","src/math/clustering/kmeans/algorithm.rs"),("Cluster","src/math/clustering/kmeans/cluster.rs")],["Kmeans::fit"])
p("C21","k-means stops early only when no centroid moves any more",
  "Before its iteration bound is reached, k-means stops only in a state where every non-empty cluster's centroid moved by less than the tolerance in the last round, so that with enough iterations each point belongs to a nearest centroid. A centroid that loses all its points stays where it is and does not jump to the origin.",
  ["inputs","histories"],"every dataset, k, initial choice, tolerance and iteration bound",
  "The only test constructs a k-means and looks at nothing.",
  ["src/math/clustering/kmeans/algorithm.rs","src/math/clustering/kmeans/cluster.rs"],
  [("Kmeans::reassign (convergence)","src/math/clustering/kmeans/algorithm.rs"),("Cluster::clear","src/math/clustering/kmeans/cluster.rs")],["Kmeans::fit"])
p("C22","Core distances are the distance to the k-th neighbour",
  "For any dataset, number of samples and metric, the core distance of a point is the smallest radius within which at least that many other points lie, or the distance to the farthest point if the dataset has fewer. Every index of the dataset has one.",
  ["inputs"],"every dataset, number of samples, metric and index",
  "The tests compute it for one dataset.",
  ["src/math/clustering/hdbscan/core_distance.rs"],[("CoreDistance::{new,distance_at}","src/math/clustering/hdbscan/core_distance.rs")],["CoreDistance::distance_at"])
p("C23","Swatches and edges are ordered consistently",
  "Swatches compare by percentage first, and their ordering is a total order consistent with equality: antisymmetric, transitive, and equal exactly for equal swatches (no NaN percentages). Weighted edges compare by weight with the lightest edge first in a priority queue, antisymmetrically and transitively.",
  ["inputs"],"every pair and triple of swatches and edges with non-NaN numbers",
  "The tests compare a few pairs.",
  ["src/swatch.rs","src/math/graph/edge.rs"],[("Ord/PartialOrd/PartialEq for Swatch","src/swatch.rs"),("Ord for WeightedEdge","src/math/graph/edge.rs")],["Swatch","WeightedEdge"])
p("C24","Number conversions and clamping are exact",
  "Clamping any number to an interval gives the number itself inside the interval and the nearest bound outside, for every number type, and refuses an inverted interval. Converting an unsigned integer to another number type keeps its value whenever the target can represent it, and otherwise gives the nearest float or fails; it never wraps.",
  ["inputs"],"every value of every number type",
  "The tests convert one value per type.",
  ["src/math/number.rs"],[("Clamp, Number and Float implementations","src/math/number.rs")],["Clamp::clamp","Number::from_*","Float::from_*"])
p("C25","HDBSCAN labels follow its definition",
  "HDBSCAN returns, for any dataset and parameters, the clusters its definition selects from the hierarchy of mutual reachability distances.",
  ["inputs"],"every dataset and parameter set",
  "It is not implemented.",
  ["src/math/clustering/hdbscan/algorithm.rs"],[("HDBSCAN::fit","src/math/clustering/hdbscan/algorithm.rs")],["HDBSCAN::fit"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
