//! Which scenarios decide which property.
use crate::common::*;
use crate::queries::*;
use crate::large::*;
use crate::validate::*;
use crate::{ieee, only, scenario};

const BUILD: &str = "Tree::new, build_nodes, moms_seq, check_data";
const NN: &str = "query_nearest, query_nearest_nonperiodic, check_stem, descend, check_child, check_leaf, check_parent, new_best, squared_euclidean, calc_dist_sq_to_space, process_result";
const KNN: &str = "query_nearest_k, query_nearest_k_nonperiodic, check_stem_k, descend_k, check_child_k, check_leaf_k, check_parent_k, new_best_kth, Container::{push, best_dist2, index}, calc_dist_sq_to_space, process_dist2";

/// Batch sizes around those at which work may be cut into pieces
const SIZES: &[usize] = &[0, 1, 2, 7, 9, 15, 17, 31, 33, 63, 65, 70, 100, 127, 130, 257, 1030];

fn sym(n: usize, lo: i64, hi: i64) -> Data {
    Data::Sym { n, lo, hi }
}
fn conc(n: usize, gen: u32, lo: i64, hi: i64) -> Data {
    Data::Conc { n, gen, lo, hi }
}
fn mixed(n: usize, m: usize, gen: u32, lo: i64, hi: i64) -> Data {
    Data::Mixed { n, m, gen, lo, hi }
}

pub fn list(prop: &str, thorough: bool) -> Vec<Scenario> {
    let mut v: Vec<Scenario> = vec![];
    let _ = thorough;
    match prop {
        "C01" => {
            let f = format!("{BUILD}, {NN}");
            scenario!(v, "d1-n4", nn1, 1, Cfg::new(sym(4, -8, 7)).leaf(1, 5), f, 10);
            scenario!(v, "d1-n5", nn1, 1, Cfg::new(sym(5, -8, 7)).leaf(1, 1), f, 12);
            scenario!(v, "d2-n2", nn1, 2, Cfg::new(sym(2, -4, 3)).leaf(1, 2), f, 10);
            scenario!(v, "d2-n3", nn1, 2, Cfg::new(sym(3, -2, 1)).leaf(1, 2), f, 40);
            scenario!(v, "d2-m6", nn1, 2, Cfg::new(mixed(6, 1, 0, -8, 7)).leaf(1, 2), f, 40);
            scenario!(v, "d1-n3-leaf0", nn1, 1, Cfg::new(sym(3, -8, 7)).leaf(0, 0), f, 10);
            scenario!(v, "d2-c9-leaf0", nn1, 2, Cfg::new(conc(9, 0, -16, 15)).leaf(0, 0), f, 10);
            scenario!(v, "d1-c40", nn1, 1, Cfg::new(conc(40, 0, -64, 63)).leaf(1, 9), f, 3);
            scenario!(v, "d1-ties30", nn1, 1, Cfg::new(conc(30, 6, -64, 63)).leaf(1, 4), f, 3);
            scenario!(v, "d2-c12", nn1, 2, Cfg::new(conc(12, 0, -16, 15)).leaf(1, 4), f, 8);
            scenario!(v, "d2-c24", nn1, 2, Cfg::new(conc(24, 0, -16, 15)).leaf(2, 2), f, 8);
            scenario!(v, "d2-ties16", nn1, 2, Cfg::new(conc(16, 6, -16, 15)).leaf(1, 3), f, 8);
            scenario!(v, "d2-clusters20", nn1, 2, Cfg::new(conc(20, 4, -32, 31)).leaf(1, 2), f, 8);
            scenario!(v, "d2-line17", nn1, 2, Cfg::new(conc(17, 3, -16, 15)).leaf(1, 2), f, 8);
            scenario!(v, "d3-c8", nn1, 3, Cfg::new(conc(8, 0, -8, 7)).leaf(1, 2), f, 12);
            scenario!(v, "d3-c20", nn1, 3, Cfg::new(conc(20, 0, -8, 7)).leaf(2, 2), f, 12);
            scenario!(v, "d4-c7", nn1, 4, Cfg::new(conc(7, 0, -8, 7)).leaf(1, 1), f, 12);
            scenario!(v, "d5-c4", nn1, 5, Cfg::new(conc(4, 0, -8, 7)).leaf(1, 1), f, 12);
            scenario!(v, "d7-c2", nn1, 7, Cfg::new(conc(2, 0, -8, 7)).leaf(1, 1), f, 12);
            scenario!(v, "d8-c2", nn1, 8, Cfg::new(conc(2, 0, -8, 7)).leaf(1, 1), f, 12);
            // more points, more dimensions, and the queries of a smaller region
            scenario!(v, "d1-wide80k", nn1, 1, Cfg::new(conc(80_000, 0, -1_000_000, 1_000_000)).q(-40, 60).leaf(1, 1), f, 10);
            scenario!(v, "d3-wide140k-par", nn1, 3, Cfg::new(conc(140_000, 0, -1_000, 1_000)).q(-3, 1).leaf(1, 1).par(3, 3), f, 10);
            scenario!(v, "d1-wide300", nn1, 1, Cfg::new(conc(300, 0, -1000, 1000)).q(-40, 60).leaf(32, 33), f, 5);
            scenario!(v, "d2-wide300", nn1, 2, Cfg::new(conc(300, 0, -100, 100)).q(3, 10).leaf(31, 32), f, 15);
            scenario!(v, "d2-wide700", nn1, 2, Cfg::new(conc(700, 0, -300, 300)).q(-30, -25).leaf(64, 64), f, 15);
            scenario!(v, "d3-wide200", nn1, 3, Cfg::new(conc(200, 0, -30, 30)).q(-2, 1).leaf(16, 16), f, 15);
            scenario!(v, "d3-wide60-leaf1", nn1, 3, Cfg::new(conc(60, 0, -30, 30)).q(4, 7).leaf(1, 1), f, 15);
            scenario!(v, "d6-wide40", nn1, 6, Cfg::new(conc(40, 0, -30, 30)).q(0, 1).leaf(1, 4), f, 15);
            scenario!(v, "d9-wide12", nn1, 9, Cfg::new(conc(12, 0, -8, 8)).q(0, 1).leaf(1, 2), f, 15);
            scenario!(v, "d16-wide5", nn1, 16, Cfg::new(conc(5, 0, -8, 8)).q(0, 1).leaf(1, 2), f, 15);
            scenario!(v, "d33-wide3", nn1, 33, Cfg::new(conc(3, 0, -8, 8)).q(0, 1).leaf(1, 1), f, 15);
            // lengths far below and far above one, and near ties far out: no absolute or relative tolerance
            scenario!(v, "d1-n3-small", nn1, 1, Cfg::new(sym(3, -8, 7)).leaf(1, 1).unit(20), f, 10);
            scenario!(v, "d2-c9-small", nn1, 2, Cfg::new(conc(9, 0, -16, 15)).leaf(1, 1).unit(28), f, 10);
            scenario!(v, "d1-c9-large", nn1, 1, Cfg::new(conc(9, 0, -16, 15)).leaf(1, 1).unit(-20), f, 10);
            scenario!(v, "d1-c10-near", nn1, 1, Cfg::new(conc(10, 10, -4_000_000, 4_000_000)).q(-3, 3).leaf(1, 1), f, 10);
            scenario!(v, "d2-leaf300", nn1, 2, Cfg::new(conc(1000, 0, -300, 300)).q(-30, -10).leaf(520, 520), f, 15);
        }
        "C02" => {
            let f = format!("{BUILD}, {KNN}");
            scenario!(v, "d1-n3", knn, 1, Cfg::new(sym(3, -8, 7)).leaf(1, 4).k(1, 4), f, 10);
            scenario!(v, "d1-n4", knn, 1, Cfg::new(sym(4, -8, 7)).leaf(1, 2).k(2, 4), f, 40);
            scenario!(v, "d2-n2", knn, 2, Cfg::new(sym(2, -4, 3)).leaf(1, 2).k(1, 3), f, 10);
            scenario!(v, "d2-n3", knn, 2, Cfg::new(sym(3, -2, 1)).leaf(1, 1).k(2, 3), f, 40);
            scenario!(v, "d1-n3-leaf0", knn, 1, Cfg::new(sym(3, -8, 7)).leaf(0, 0).k(1, 3), f, 10);
            scenario!(v, "d2-c7-leaf0", knn, 2, Cfg::new(conc(7, 0, -16, 15)).leaf(0, 0).k(2, 2), f, 10);
            scenario!(v, "d1-c20", knn, 1, Cfg::new(conc(20, 0, -64, 63)).leaf(1, 3).k(1, 8), f, 4);
            scenario!(v, "d1-ties24", knn, 1, Cfg::new(conc(24, 6, -64, 63)).leaf(1, 4).k(1, 9), f, 4);
            scenario!(v, "d2-c10-k3", knn, 2, Cfg::new(conc(10, 0, -16, 15)).leaf(1, 2).k(2, 3), f, 20);
            scenario!(v, "d2-c18-k2", knn, 2, Cfg::new(conc(18, 0, -16, 15)).leaf(2, 2).k(2, 2), f, 20);
            scenario!(v, "d2-ties12", knn, 2, Cfg::new(conc(12, 6, -16, 15)).leaf(1, 2).k(2, 3), f, 20);
            scenario!(v, "d2-clusters12", knn, 2, Cfg::new(conc(12, 4, -16, 15)).leaf(1, 2).k(3, 4), f, 20);
            scenario!(v, "d3-c8", knn, 3, Cfg::new(conc(8, 0, -8, 7)).leaf(1, 1).k(2, 2), f, 20);
            scenario!(v, "d5-c3", knn, 5, Cfg::new(conc(3, 0, -8, 7)).leaf(1, 1).k(2, 2), f, 20);
            scenario!(v, "d7-c2", knn, 7, Cfg::new(conc(2, 0, -8, 7)).leaf(1, 1).k(2, 2), f, 20);
            // more points, more neighbours, more dimensions, and the queries of a smaller region
            scenario!(v, "d1-wide300", knn, 1, Cfg::new(conc(300, 0, -1000, 1000)).q(-8, 8).leaf(32, 32).k(16, 17), f, 10);
            scenario!(v, "d1-wide300-k66", knn, 1, Cfg::new(conc(300, 0, -1000, 1000)).q(5, 8).leaf(20, 20).k(65, 66), f, 10);
            scenario!(v, "d2-wide150-k33", knn, 2, Cfg::new(conc(150, 0, -100, 100)).q(3, 4).leaf(8, 8).k(32, 33), f, 10);
            scenario!(v, "d2-wide400-k5", knn, 2, Cfg::new(conc(400, 0, -300, 300)).q(3, 5).leaf(33, 33).k(4, 5), f, 10);
            scenario!(v, "d2-wide140-all", knn, 2, Cfg::new(conc(140, 0, -100, 100)).q(3, 4).leaf(16, 16).k(139, 141), f, 10);
            scenario!(v, "d3-wide100-k9", knn, 3, Cfg::new(conc(100, 0, -30, 30)).q(-2, -1).leaf(16, 16).k(8, 9), f, 15);
            scenario!(v, "d2-wide80k-k300", knn, 2, Cfg::new(conc(80_000, 0, -3_000, 3_000)).q(3, 4).leaf(1, 1).k(300, 300), f, 15);
            scenario!(v, "d1-wide140k-k5", knn, 1, Cfg::new(conc(140_000, 0, -1_000_000, 1_000_000)).q(-9, 9).leaf(1, 1).k(5, 5), f, 15);
            scenario!(v, "d9-wide9-k3", knn, 9, Cfg::new(conc(9, 0, -8, 8)).q(0, 1).leaf(1, 2).k(3, 3), f, 15);
            scenario!(v, "d16-wide4-k2", knn, 16, Cfg::new(conc(4, 0, -8, 8)).q(0, 1).leaf(1, 1).k(2, 2), f, 15);
            // lengths far below and far above one, and near ties far out: no absolute or relative tolerance
            scenario!(v, "d1-n3-small", knn, 1, Cfg::new(sym(3, -8, 7)).leaf(1, 1).k(2, 2).unit(20), f, 10);
            scenario!(v, "d2-c8-small", knn, 2, Cfg::new(conc(8, 0, -16, 15)).leaf(1, 1).k(2, 2).unit(28), f, 10);
            scenario!(v, "d1-c9-large", knn, 1, Cfg::new(conc(9, 0, -16, 15)).leaf(1, 1).k(3, 3).unit(-20), f, 10);
            scenario!(v, "d1-c10-near", knn, 1, Cfg::new(conc(10, 10, -4_000_000, 4_000_000)).q(-3, 3).leaf(1, 1).k(1, 3), f, 10);
            scenario!(v, "d2-leaf300", knn, 2, Cfg::new(conc(1000, 0, -300, 300)).q(-3, -2).leaf(520, 520).k(70, 70), f, 15);
        }
        "C03" => {
            let f = format!("{BUILD}, with_boxsize, query_nearest_periodic, {NN}");
            scenario!(v, "d1-n2", pnn1, 1, Cfg::new(sym(2, 0, 8)).boxed(1, 8).leaf(1, 2), f, 10);
            scenario!(v, "d1-n3", pnn1, 1, Cfg::new(sym(3, 0, 8)).boxed(8, 8).leaf(1, 3), f, 20);
            scenario!(v, "d1-c20", pnn1, 1, Cfg::new(conc(20, 0, 0, 100)).boxed(100, 110).leaf(1, 3), f, 10);
            scenario!(v, "d2-n1", pnn1, 2, Cfg::new(sym(1, 0, 8)).boxed(8, 8).leaf(1, 1), f, 10);
            scenario!(v, "d2-c3", pnn1, 2, Cfg::new(conc(3, 0, 0, 16)).boxed(16, 16).leaf(1, 2), f, 20);
            scenario!(v, "d2-c8", pnn1, 2, Cfg::new(conc(8, 0, 0, 16)).boxed(16, 16).leaf(2, 2), f, 30);
            scenario!(v, "d3-c2", pnn1, 3, Cfg::new(conc(2, 0, 0, 8)).boxed(8, 8).leaf(1, 1), f, 30);
            scenario!(v, "d4-c2", pnn1, 4, Cfg::new(conc(2, 0, 0, 4)).boxed(4, 4).leaf(1, 1), f, 30);
            scenario!(v, "d2-oblong", pnn1, 2, Cfg::new(conc(4, 0, 0, 16)).boxed(16, 16).oblong(9).q(0, 25).leaf(1, 2), f, 30);
            scenario!(v, "d2-corner", pnn1, 2, Cfg::new(conc(4, 0, 1, 6)).boxed(16, 16).q(0, 16).leaf(1, 2), f, 30);
            scenario!(v, "d2-anybox", pnn1, 2, Cfg::new(conc(2, 0, 0, 8)).boxed(8, 12).q(0, 12).leaf(1, 1), f, 30);
            scenario!(v, "d1-wide80k", pnn1, 1, Cfg::new(conc(80_000, 0, 0, 1_000_000)).boxed(1_000_000, 1_000_000).q(0, 20).leaf(1, 1), f, 15);
            scenario!(v, "d2-wide80k", pnn1, 2, Cfg::new(conc(80_000, 0, 0, 1_000)).boxed(1_000, 1_000).q(998, 1_000).leaf(1, 1), f, 15);
            scenario!(v, "d1-wide200", pnn1, 1, Cfg::new(conc(200, 0, 0, 1000)).boxed(1000, 1000).q(0, 40).leaf(16, 16), f, 10);
            scenario!(v, "d1-wide200-end", pnn1, 1, Cfg::new(conc(200, 0, 0, 900)).boxed(1000, 1000).q(930, 1000).leaf(16, 16), f, 10);
            scenario!(v, "d2-wide60", pnn1, 2, Cfg::new(conc(60, 0, 0, 100)).boxed(100, 100).q(0, 3).leaf(8, 8), f, 10);
            scenario!(v, "d2-wide300-end", pnn1, 2, Cfg::new(conc(300, 0, 0, 99)).boxed(100, 100).q(97, 100).leaf(33, 33), f, 10);
            scenario!(v, "d2-wide-oblong", pnn1, 2, Cfg::new(conc(60, 0, 0, 60)).boxed(64, 64).oblong(40).q(61, 64).leaf(4, 4), f, 10);
            scenario!(v, "d3-wide30", pnn1, 3, Cfg::new(conc(30, 0, 0, 30)).boxed(32, 32).q(31, 32).leaf(4, 4), f, 10);
            scenario!(v, "d5-wide6", pnn1, 5, Cfg::new(conc(6, 0, 0, 30)).boxed(32, 32).q(0, 1).leaf(2, 2), f, 10);
            scenario!(v, "d8-wide3", pnn1, 8, Cfg::new(conc(3, 0, 0, 30)).boxed(32, 32).q(31, 32).leaf(1, 1), f, 10);
            scenario!(v, "d1-n2-small", pnn1, 1, Cfg::new(sym(2, 0, 8)).boxed(8, 8).leaf(1, 1).unit(20), f, 10);
            scenario!(v, "d2-c3-small", pnn1, 2, Cfg::new(conc(3, 0, 0, 16)).boxed(16, 16).leaf(1, 1).unit(28), f, 10);
            scenario!(v, "d1-c6-large", pnn1, 1, Cfg::new(conc(6, 0, 0, 16)).boxed(16, 16).leaf(1, 1).unit(-20), f, 10);
            scenario!(v, "d1-c4-near", pnn1, 1, Cfg::new(conc(4, 10, 0, 8_000_000)).boxed(8_000_000, 8_000_000).q(3_999_998, 4_000_002).leaf(1, 1), f, 10);
            scenario!(v, "d1-leaf300", pnn1, 1, Cfg::new(conc(1000, 0, 0, 9000)).boxed(9001, 9001).q(0, 9).leaf(520, 520), f, 15);
        }
        "C04" => {
            let f = format!("{BUILD}, with_boxsize, query_nearest_k_periodic, {KNN}");
            scenario!(v, "d1-n2", pknn, 1, Cfg::new(sym(2, 0, 8)).boxed(8, 8).leaf(1, 2).k(1, 3), f, 10);
            scenario!(v, "d1-n3", pknn, 1, Cfg::new(sym(3, 0, 8)).boxed(8, 8).leaf(1, 1).k(2, 3), f, 20);
            scenario!(v, "d1-c12", pknn, 1, Cfg::new(conc(12, 0, 0, 64)).boxed(64, 66).leaf(1, 2).k(1, 12), f, 10);
            scenario!(v, "d2-n1", pknn, 2, Cfg::new(sym(1, 0, 8)).boxed(8, 8).leaf(1, 1).k(1, 2), f, 10);
            scenario!(v, "d2-c3", pknn, 2, Cfg::new(conc(3, 0, 0, 16)).boxed(16, 16).leaf(1, 2).k(2, 3), f, 20);
            scenario!(v, "d2-c6", pknn, 2, Cfg::new(conc(6, 0, 0, 16)).boxed(16, 16).leaf(1, 1).k(3, 3), f, 30);
            scenario!(v, "d3-c2", pknn, 3, Cfg::new(conc(2, 0, 0, 8)).boxed(8, 8).leaf(1, 1).k(2, 2), f, 30);
            scenario!(v, "d4-c2", pknn, 4, Cfg::new(conc(2, 0, 0, 4)).boxed(4, 4).leaf(1, 1).k(1, 2), f, 30);
            scenario!(v, "d2-oblong", pknn, 2, Cfg::new(conc(4, 0, 0, 16)).boxed(16, 16).oblong(9).q(0, 25).leaf(1, 1).k(2, 2), f, 30);
            scenario!(v, "d2-corner", pknn, 2, Cfg::new(conc(4, 0, 1, 6)).boxed(16, 16).q(0, 16).leaf(1, 1).k(2, 3), f, 30);
            scenario!(v, "d2-anybox", pknn, 2, Cfg::new(conc(2, 0, 0, 8)).boxed(8, 12).q(0, 12).leaf(1, 1).k(2, 2), f, 30);
            scenario!(v, "d1-wide80k", pknn, 1, Cfg::new(conc(80_000, 0, 0, 1_000_000)).boxed(1_000_000, 1_000_000).q(999_990, 1_000_000).leaf(1, 1).k(4, 4), f, 15);
            scenario!(v, "d1-wide100", pknn, 1, Cfg::new(conc(100, 0, 0, 1000)).boxed(1000, 1000).q(0, 20).leaf(16, 16).k(32, 33), f, 10);
            scenario!(v, "d1-wide100-end", pknn, 1, Cfg::new(conc(100, 0, 0, 900)).boxed(1000, 1000).q(970, 1000).leaf(16, 16).k(8, 8), f, 10);
            scenario!(v, "d1-wide40-all", pknn, 1, Cfg::new(conc(40, 0, 0, 1000)).boxed(1000, 1000).q(990, 1000).leaf(4, 4).k(39, 41), f, 10);
            scenario!(v, "d2-wide60", pknn, 2, Cfg::new(conc(60, 0, 0, 100)).boxed(100, 100).q(0, 2).leaf(8, 8).k(5, 6), f, 10);
            scenario!(v, "d2-wide200-end", pknn, 2, Cfg::new(conc(200, 0, 0, 99)).boxed(100, 100).q(98, 100).leaf(33, 33).k(17, 17), f, 10);
            scenario!(v, "d2-wide-oblong", pknn, 2, Cfg::new(conc(60, 0, 0, 60)).boxed(64, 64).oblong(40).q(61, 63).leaf(4, 4).k(4, 4), f, 10);
            scenario!(v, "d3-wide20", pknn, 3, Cfg::new(conc(20, 0, 0, 30)).boxed(32, 32).q(31, 32).leaf(4, 4).k(3, 3), f, 10);
            scenario!(v, "d5-wide5", pknn, 5, Cfg::new(conc(5, 0, 0, 30)).boxed(32, 32).q(0, 1).leaf(2, 2).k(2, 2), f, 10);
            scenario!(v, "d7-wide3", pknn, 7, Cfg::new(conc(3, 0, 0, 30)).boxed(32, 32).q(31, 32).leaf(1, 1).k(2, 2), f, 10);
            scenario!(v, "d1-n2-small", pknn, 1, Cfg::new(sym(2, 0, 8)).boxed(8, 8).leaf(1, 1).k(2, 2).unit(20), f, 10);
            scenario!(v, "d2-c3-small", pknn, 2, Cfg::new(conc(3, 0, 0, 16)).boxed(16, 16).leaf(1, 1).k(2, 2).unit(28), f, 10);
            scenario!(v, "d1-c6-large", pknn, 1, Cfg::new(conc(6, 0, 0, 16)).boxed(16, 16).leaf(1, 1).k(2, 2).unit(-20), f, 10);
            scenario!(v, "d1-c4-near", pknn, 1, Cfg::new(conc(4, 10, 0, 8_000_000)).boxed(8_000_000, 8_000_000).q(3_999_998, 4_000_002).leaf(1, 1).k(2, 2), f, 10);
            scenario!(v, "d1-leaf300", pknn, 1, Cfg::new(conc(1000, 0, 0, 9000)).boxed(9001, 9001).q(0, 5).leaf(520, 520).k(70, 70), f, 15);
        }
        #[cfg(all(feature = "parallel", feature = "no-position"))]
        "C05" => {
            let f = format!("{BUILD}, query_nearest_k_parallel");
            scenario!(v, "d1-n3-q1", batch, 1, Cfg::new(sym(3, -8, 7)).leaf(1, 3).k(1, 4), f, 10);
            scenario!(v, "d1-c8-q3", batch, 1, Cfg::new(conc(8, 0, -16, 15)).leaf(1, 2).k(1, 3).nq(2).extra(2), f, 10);
            scenario!(v, "d2-c6-q3", batch, 2, Cfg::new(conc(6, 0, -8, 7)).leaf(1, 2).k(2, 2).nq(1).extra(3), f, 10);
            scenario!(v, "d1-p3", batch, 1, Cfg::new(conc(5, 0, 0, 16)).boxed(16, 16).leaf(1, 1).k(1, 6).nq(1).extra(2), f, 10);
            scenario!(v, "d2-p3", batch, 2, Cfg::new(conc(3, 0, 0, 16)).boxed(16, 16).leaf(1, 1).k(2, 2).nq(1).extra(2), f, 20);
            scenario!(v, "d1-sizes", batch, 1, Cfg::new(conc(4, 0, -8, 7)).leaf(1, 1).k(1, 2).nq(1).sizes(SIZES), f, 20);
            scenario!(v, "d2-sizes", batch, 2, Cfg::new(conc(3, 0, -4, 3)).leaf(1, 1).k(2, 2).nq(0).sizes(SIZES), f, 20);
            scenario!(v, "d1-ties-q2", batch, 1, Cfg::new(conc(14, 8, -16, 15)).leaf(2, 3).k(2, 3).nq(2), f, 20);
            scenario!(v, "d2-ties-q2", batch, 2, Cfg::new(conc(8, 8, -4, 3)).leaf(2, 2).k(2, 2).nq(2), f, 40);
            scenario!(v, "d2-oblong", batch, 2, Cfg::new(conc(3, 0, 0, 12)).boxed(12, 12).oblong(7).q(0, 19).leaf(1, 1).k(2, 2).nq(1), f, 20);
            scenario!(v, "d1-again", batch, 1, Cfg::new(conc(5, 0, -8, 7)).q(-3, 3).leaf(1, 2).k(1, 2).nq(1).extra(2).again(), f, 20);
            scenario!(v, "d2-again", batch, 2, Cfg::new(conc(5, 0, -8, 7)).q(-1, 1).leaf(2, 2).k(2, 2).nq(1).extra(2).again(), f, 20);
            scenario!(v, "d1-again-p", batch, 1, Cfg::new(conc(4, 0, 0, 16)).boxed(16, 16).leaf(1, 2).k(1, 2).nq(1).extra(2).again(), f, 20);
            scenario!(v, "d1-many", batch, 1, Cfg::new(conc(4, 0, -8, 7)).leaf(2, 2).k(2, 2).nq(1).extra(70_000), f, 20);
            scenario!(v, "d2-long", batch, 2, Cfg::new(conc(400, 0, -100, 100)).q(3, 4).leaf(9, 9).k(300, 300).nq(1).extra(220), f, 20);
            scenario!(v, "d1-wide", batch, 1, Cfg::new(conc(300, 0, -1000, 1000)).q(-8, 8).leaf(32, 32).k(33, 34).nq(1).extra(20), f, 20);
            scenario!(v, "d2-wide", batch, 2, Cfg::new(conc(150, 0, -100, 100)).q(3, 5).leaf(16, 16).k(9, 9).nq(1).extra(40), f, 20);
            scenario!(v, "d3-wide", batch, 3, Cfg::new(conc(60, 0, -30, 30)).q(-1, 0).leaf(4, 4).k(3, 3).nq(1).extra(10), f, 20);
            scenario!(v, "d5-wide", batch, 5, Cfg::new(conc(20, 0, -30, 30)).q(-1, 0).leaf(1, 1).k(2, 2).nq(1).extra(3), f, 20);
            scenario!(v, "d9-wide", batch, 9, Cfg::new(conc(9, 0, -8, 8)).q(0, 1).leaf(1, 1).k(3, 3).nq(1).extra(2), f, 20);
            scenario!(v, "d5-wide-p", batch, 5, Cfg::new(conc(5, 0, 0, 30)).boxed(32, 32).q(0, 1).leaf(2, 2).k(2, 2).nq(1).extra(1), f, 20);
            scenario!(v, "d8-wide-p", batch, 8, Cfg::new(conc(3, 0, 0, 30)).boxed(32, 32).q(31, 32).leaf(1, 1).k(1, 2).nq(0).extra(2), f, 20);
            scenario!(v, "d2-wide-p", batch, 2, Cfg::new(conc(40, 0, 0, 100)).boxed(100, 100).q(94, 96).leaf(4, 4).k(6, 6).nq(1).extra(4), f, 20);
            scenario!(v, "d1-small", batch, 1, Cfg::new(conc(6, 0, -16, 15)).leaf(1, 1).k(2, 2).nq(1).extra(2).unit(20), f, 20);
            scenario!(v, "d2-small-p", batch, 2, Cfg::new(conc(3, 0, 0, 16)).boxed(16, 16).leaf(1, 1).k(2, 2).nq(1).unit(28), f, 20);
            scenario!(v, "d1-near", batch, 1, Cfg::new(conc(10, 10, -4_000_000, 4_000_000)).q(-3, 3).leaf(1, 1).k(1, 2).nq(1).extra(1), f, 20);
            let from = v.len();
            scenario!(v, "s-d1-c6-q4-p0", batch, 1, Cfg::new(conc(6, 0, -16, 15)).leaf(1, 2).k(2, 2).nq(1).extra(3).sched(0, 2, false), f, 10);
            scenario!(v, "s-d2-c5-q3-p0", batch, 2, Cfg::new(conc(5, 0, -8, 7)).leaf(1, 1).k(2, 2).nq(1).extra(2).sched(0, 3, false), f, 10);
            scenario!(v, "s-d1-c5-q3-p1", batch, 1, Cfg::new(conc(5, 0, -16, 15)).leaf(1, 1).k(1, 3).nq(0).extra(3).sched(1, 2, true), f, 20);
            scenario!(v, "s-d1-c5-pool-p1", batch, 1, Cfg::new(conc(5, 0, -16, 15)).leaf(1, 1).k(2, 2).nq(0).extra(2).sched(1, 12, true), f, 20);
            scenario!(v, "s-d1-n2-q2-p1", batch, 1, Cfg::new(sym(2, -3, 2)).leaf(1, 1).k(1, 2).nq(1).extra(1).sched(1, 2, true), f, 20);
            scenario!(v, "s-d2-c4-q2-p2", batch, 2, Cfg::new(conc(4, 0, -8, 7)).leaf(1, 1).k(2, 2).nq(0).extra(2).sched(2, 2, true), f, 20);
            scenario!(v, "s-d1-per-q3-p1", batch, 1, Cfg::new(conc(3, 0, 0, 16)).boxed(16, 16).leaf(1, 1).k(2, 2).nq(0).extra(3).sched(1, 2, true), f, 20);
            scenario!(v, "s-d1-per-q2-p0", batch, 1, Cfg::new(conc(3, 0, 0, 16)).boxed(16, 16).leaf(1, 1).k(1, 3).nq(2).extra(0).sched(0, 2, false), f, 20);
            only!(v, from, "sched");
        }
        #[cfg(all(feature = "parallel", feature = "no-position"))]
        "C06" => {
            let f = format!("{BUILD}, query_nearest_k_parallel_with");
            scenario!(v, "d1-n3-q1", batch, 1, Cfg::new(sym(3, -8, 7)).leaf(1, 3).k(1, 4).api(1), f, 10);
            scenario!(v, "d1-c8-q3", batch, 1, Cfg::new(conc(8, 0, -16, 15)).leaf(1, 2).k(1, 3).nq(2).extra(2).api(1), f, 10);
            scenario!(v, "d2-c6-q3", batch, 2, Cfg::new(conc(6, 0, -8, 7)).leaf(1, 2).k(2, 2).nq(1).extra(3).api(1), f, 10);
            scenario!(v, "d1-p3", batch, 1, Cfg::new(conc(5, 0, 0, 16)).boxed(16, 16).leaf(1, 1).k(1, 6).nq(1).extra(2).api(1), f, 10);
            scenario!(v, "d2-p3", batch, 2, Cfg::new(conc(3, 0, 0, 16)).boxed(16, 16).leaf(1, 1).k(2, 2).nq(1).extra(2).api(1), f, 20);
            scenario!(v, "d1-sizes", batch, 1, Cfg::new(conc(4, 0, -8, 7)).leaf(1, 1).k(1, 2).nq(1).sizes(SIZES).api(1), f, 20);
            scenario!(v, "d2-sizes", batch, 2, Cfg::new(conc(3, 0, -4, 3)).leaf(1, 1).k(2, 2).nq(0).sizes(SIZES).api(1), f, 20);
            scenario!(v, "d1-ties-q2", batch, 1, Cfg::new(conc(14, 8, -16, 15)).leaf(2, 3).k(2, 3).nq(2).api(1), f, 20);
            scenario!(v, "d2-ties-q2", batch, 2, Cfg::new(conc(8, 8, -4, 3)).leaf(2, 2).k(2, 2).nq(2).api(1), f, 40);
            scenario!(v, "d2-oblong", batch, 2, Cfg::new(conc(3, 0, 0, 12)).boxed(12, 12).oblong(7).q(0, 19).leaf(1, 1).k(2, 2).nq(1).api(1), f, 20);
            scenario!(v, "d1-again", batch, 1, Cfg::new(conc(5, 0, -8, 7)).q(-3, 3).leaf(1, 2).k(1, 2).nq(1).extra(2).again().api(1), f, 20);
            scenario!(v, "d2-again", batch, 2, Cfg::new(conc(5, 0, -8, 7)).q(-1, 1).leaf(2, 2).k(2, 2).nq(1).extra(2).again().api(1), f, 20);
            scenario!(v, "d1-again-p", batch, 1, Cfg::new(conc(4, 0, 0, 16)).boxed(16, 16).leaf(1, 2).k(1, 2).nq(1).extra(2).again().api(1), f, 20);
            scenario!(v, "d1-many", batch, 1, Cfg::new(conc(4, 0, -8, 7)).leaf(2, 2).k(2, 2).nq(1).extra(70_000).api(1), f, 20);
            scenario!(v, "d2-long", batch, 2, Cfg::new(conc(400, 0, -100, 100)).q(3, 4).leaf(9, 9).k(300, 300).nq(1).extra(220).api(1), f, 20);
            scenario!(v, "d1-wide", batch, 1, Cfg::new(conc(300, 0, -1000, 1000)).q(-8, 8).leaf(32, 32).k(33, 34).nq(1).extra(20).api(1), f, 20);
            scenario!(v, "d2-wide", batch, 2, Cfg::new(conc(150, 0, -100, 100)).q(3, 5).leaf(16, 16).k(9, 9).nq(1).extra(40).api(1), f, 20);
            scenario!(v, "d3-wide", batch, 3, Cfg::new(conc(60, 0, -30, 30)).q(-1, 0).leaf(4, 4).k(3, 3).nq(1).extra(10).api(1), f, 20);
            scenario!(v, "d5-wide", batch, 5, Cfg::new(conc(20, 0, -30, 30)).q(-1, 0).leaf(1, 1).k(2, 2).nq(1).extra(3).api(1), f, 20);
            scenario!(v, "d9-wide", batch, 9, Cfg::new(conc(9, 0, -8, 8)).q(0, 1).leaf(1, 1).k(3, 3).nq(1).extra(2).api(1), f, 20);
            scenario!(v, "d5-wide-p", batch, 5, Cfg::new(conc(5, 0, 0, 30)).boxed(32, 32).q(0, 1).leaf(2, 2).k(2, 2).nq(1).extra(1).api(1), f, 20);
            scenario!(v, "d8-wide-p", batch, 8, Cfg::new(conc(3, 0, 0, 30)).boxed(32, 32).q(31, 32).leaf(1, 1).k(1, 2).nq(0).extra(2).api(1), f, 20);
            scenario!(v, "d2-wide-p", batch, 2, Cfg::new(conc(40, 0, 0, 100)).boxed(100, 100).q(94, 96).leaf(4, 4).k(6, 6).nq(1).extra(4).api(1), f, 20);
            scenario!(v, "d1-small", batch, 1, Cfg::new(conc(6, 0, -16, 15)).leaf(1, 1).k(2, 2).nq(1).extra(2).unit(20).api(1), f, 20);
            scenario!(v, "d2-small-p", batch, 2, Cfg::new(conc(3, 0, 0, 16)).boxed(16, 16).leaf(1, 1).k(2, 2).nq(1).unit(28).api(1), f, 20);
            scenario!(v, "d1-near", batch, 1, Cfg::new(conc(10, 10, -4_000_000, 4_000_000)).q(-3, 3).leaf(1, 1).k(1, 2).nq(1).extra(1).api(1), f, 20);
            let from = v.len();
            scenario!(v, "s-d1-c6-q4-p0", batch, 1, Cfg::new(conc(6, 0, -16, 15)).leaf(1, 2).k(2, 2).nq(1).extra(3).sched(0, 2, false).api(1), f, 10);
            scenario!(v, "s-d2-c5-q3-p0", batch, 2, Cfg::new(conc(5, 0, -8, 7)).leaf(1, 1).k(2, 2).nq(1).extra(2).sched(0, 3, false).api(1), f, 10);
            scenario!(v, "s-d1-c5-q3-p1", batch, 1, Cfg::new(conc(5, 0, -16, 15)).leaf(1, 1).k(1, 3).nq(0).extra(3).sched(1, 2, true).api(1), f, 20);
            scenario!(v, "s-d1-c5-pool-p1", batch, 1, Cfg::new(conc(5, 0, -16, 15)).leaf(1, 1).k(2, 2).nq(0).extra(2).sched(1, 12, true).api(1), f, 20);
            scenario!(v, "s-d1-n2-q2-p1", batch, 1, Cfg::new(sym(2, -3, 2)).leaf(1, 1).k(1, 2).nq(1).extra(1).sched(1, 2, true).api(1), f, 20);
            scenario!(v, "s-d2-c4-q2-p2", batch, 2, Cfg::new(conc(4, 0, -8, 7)).leaf(1, 1).k(2, 2).nq(0).extra(2).sched(2, 2, true).api(1), f, 20);
            scenario!(v, "s-d1-per-q3-p1", batch, 1, Cfg::new(conc(3, 0, 0, 16)).boxed(16, 16).leaf(1, 1).k(2, 2).nq(0).extra(3).sched(1, 2, true).api(1), f, 20);
            scenario!(v, "s-d1-per-q2-p0", batch, 1, Cfg::new(conc(3, 0, 0, 16)).boxed(16, 16).leaf(1, 1).k(1, 3).nq(2).extra(0).sched(0, 2, false).api(1), f, 20);
            only!(v, from, "sched");
        }
        #[cfg(all(feature = "parallel", feature = "no-position"))]
        "C07" => {
            let f = format!("{BUILD}, query_nearest_k_parallel_axis");
            scenario!(v, "d1-n3", axis, 1, Cfg::new(sym(3, -8, 7)).leaf(1, 1).k(1, 3).axis(0, 1), f, 10);
            scenario!(v, "d2-n2", axis, 2, Cfg::new(sym(2, -4, 3)).leaf(1, 2).k(1, 3).axis(0, 2), f, 10);
            scenario!(v, "d2-c8", axis, 2, Cfg::new(conc(8, 0, -16, 15)).leaf(1, 2).k(2, 3).axis(0, 1), f, 10);
            scenario!(v, "d2-c6-q2", axis, 2, Cfg::new(conc(6, 0, -8, 7)).leaf(1, 1).k(2, 2).axis(0, 1).nq(1).extra(2), f, 10);
            scenario!(v, "d3-c6", axis, 3, Cfg::new(conc(6, 0, -8, 7)).leaf(1, 1).k(2, 2).axis(0, 2), f, 10);
            scenario!(v, "d1-p3", axis, 1, Cfg::new(conc(5, 0, 0, 16)).boxed(16, 16).leaf(1, 1).k(1, 5).axis(0, 0), f, 10);
            scenario!(v, "d2-p3", axis, 2, Cfg::new(conc(3, 0, 0, 16)).boxed(16, 16).leaf(1, 1).k(2, 2).axis(0, 1), f, 20);
            scenario!(v, "d2-sizes", axis, 2, Cfg::new(conc(3, 0, -4, 3)).leaf(1, 1).k(2, 2).axis(0, 1).nq(0).sizes(SIZES), f, 20);
            ieee!(v, "d2-n1-e3m2", axis_float, 2, 3, 3, Cfg::new(sym(1, 0, 0)).leaf(1, 1).k(1, 1), f, 20);
            ieee!(v, "d2-n2-e2m2", axis_float, 2, 2, 3, Cfg::new(sym(2, 0, 0)).leaf(1, 1).k(1, 2), f, 20);
            if thorough {
                ieee!(v, "d2-n2-e3m2", axis_float, 2, 3, 3, Cfg::new(sym(2, 0, 0)).leaf(1, 2).k(1, 2), f, 40);
                ieee!(v, "d2-n1-f32", axis_float, 2, 8, 24, Cfg::new(sym(1, 0, 0)).leaf(1, 1).k(1, 1), f, 20);
            }
            scenario!(v, "d2-oblong", axis, 2, Cfg::new(conc(2, 0, 0, 12)).boxed(12, 12).oblong(7).q(0, 19).leaf(1, 1).k(2, 2).axis(0, 1), f, 20);
            scenario!(v, "d1-again", axis, 1, Cfg::new(conc(5, 0, -8, 7)).q(-3, 3).leaf(1, 2).k(1, 2).axis(0, 0).nq(1).extra(2).again(), f, 20);
            scenario!(v, "d2-again", axis, 2, Cfg::new(conc(5, 0, -8, 7)).q(-1, 1).leaf(2, 2).k(2, 2).axis(0, 1).nq(1).extra(2).again(), f, 20);
            scenario!(v, "d1-many", axis, 1, Cfg::new(conc(4, 0, -8, 7)).leaf(2, 2).k(2, 2).axis(0, 0).nq(1).extra(70_000), f, 20);
            scenario!(v, "d2-long", axis, 2, Cfg::new(conc(150, 0, -100, 100)).q(3, 4).leaf(9, 9).k(140, 140).axis(1, 1).nq(1).extra(40), f, 20);
            scenario!(v, "d1-wide", axis, 1, Cfg::new(conc(300, 0, -1000, 1000)).q(-8, 8).leaf(32, 32).k(33, 34).axis(0, 0).nq(1).extra(5), f, 20);
            scenario!(v, "d2-wide", axis, 2, Cfg::new(conc(150, 0, -100, 100)).q(3, 4).leaf(16, 16).k(9, 9).axis(0, 1).nq(1).extra(20), f, 20);
            scenario!(v, "d3-wide", axis, 3, Cfg::new(conc(60, 0, -30, 30)).q(-1, 0).leaf(4, 4).k(3, 3).axis(0, 2).nq(1).extra(5), f, 20);
            scenario!(v, "d5-wide", axis, 5, Cfg::new(conc(20, 0, -30, 30)).q(-1, 0).leaf(1, 1).k(2, 2).axis(0, 4).nq(1).extra(2), f, 20);
            scenario!(v, "d9-wide", axis, 9, Cfg::new(conc(6, 0, -8, 8)).q(0, 1).leaf(1, 1).k(2, 2).axis(0, 9).nq(1).extra(1), f, 20);
            scenario!(v, "d8-wide-p", axis, 8, Cfg::new(conc(3, 0, 0, 30)).boxed(32, 32).q(31, 32).leaf(1, 1).k(1, 2).axis(6, 7).nq(0).extra(2), f, 20);
            scenario!(v, "d2-wide-p", axis, 2, Cfg::new(conc(20, 0, 0, 100)).boxed(100, 100).q(94, 95).leaf(4, 4).k(4, 4).axis(0, 1).nq(1).extra(2), f, 20);
            scenario!(v, "d1-small", axis, 1, Cfg::new(conc(6, 0, -16, 15)).leaf(1, 1).k(2, 2).axis(0, 0).nq(1).extra(2).unit(20), f, 20);
            scenario!(v, "d2-small-p", axis, 2, Cfg::new(conc(3, 0, 0, 16)).boxed(16, 16).leaf(1, 1).k(2, 2).axis(0, 1).nq(1).unit(28), f, 20);
            scenario!(v, "d1-near", axis, 1, Cfg::new(conc(10, 10, -4_000_000, 4_000_000)).q(-3, 3).leaf(1, 1).k(1, 2).axis(0, 0).nq(1).extra(1), f, 20);
            scenario!(v, "d3-wide-p", axis, 3, Cfg::new(conc(6, 0, 0, 100)).boxed(100, 100).q(1, 2).leaf(2, 2).k(2, 2).axis(0, 2).nq(1), f, 20);
            let from = v.len();
            scenario!(v, "s-d2-c4-q3-p0", axis, 2, Cfg::new(conc(4, 0, -8, 7)).leaf(1, 1).k(2, 2).axis(0, 1).nq(1).extra(2).sched(0, 2, false), f, 10);
            scenario!(v, "s-d2-c4-q2-p1", axis, 2, Cfg::new(conc(4, 0, -8, 7)).leaf(1, 1).k(2, 2).axis(0, 1).nq(0).extra(2).sched(1, 2, true), f, 20);
            scenario!(v, "s-d2-c4-pool-p1", axis, 2, Cfg::new(conc(4, 0, -8, 7)).leaf(1, 1).k(2, 2).axis(0, 1).nq(0).extra(2).sched(1, 12, true), f, 20);
            scenario!(v, "s-d1-per-q2-p1", axis, 1, Cfg::new(conc(3, 0, 0, 16)).boxed(16, 16).leaf(1, 1).k(2, 2).axis(0, 0).nq(0).extra(2).sched(1, 2, true), f, 20);
            only!(v, from, "sched");
        }
        "C09" => {
            let f = "Tree::new_parallel, build_nodes_parallel, moms_seq, query_nearest, query_nearest_k";
            scenario!(v, "d1-n3-free", par_build, 1, Cfg::new(sym(3, -4, 3)).leaf(1, 2).par(0, 3), f, 20);
            scenario!(v, "d1-wide140k-free", nn1, 1, Cfg::new(conc(140_000, 0, -1_000_000, 1_000_000)).q(-20, 20).leaf(1, 1).par(4, 4), f, 20);
            scenario!(v, "d2-wide-free", par_build, 2, Cfg::new(conc(120, 0, -100, 100)).q(3, 5).leaf(4, 5).par(0, 6), f, 20);
            let from = v.len();
            scenario!(v, "d1-n3-p0", par_build, 1, Cfg::new(sym(3, -4, 3)).leaf(1, 1).par(0, 3).sched(0, 0, false), f, 20);
            scenario!(v, "d1-c7-p1", par_build, 1, Cfg::new(conc(7, 0, -16, 15)).leaf(1, 1).par(1, 3).sched(1, 0, false), f, 20);
            scenario!(v, "d2-c6-p1", par_build, 2, Cfg::new(conc(6, 0, -16, 15)).leaf(1, 2).par(1, 3).sched(1, 0, true), f, 20);
            scenario!(v, "d1-c5-p2", par_build, 1, Cfg::new(conc(5, 0, -16, 15)).leaf(1, 1).par(1, 2).sched(2, 0, false), f, 20);
            scenario!(v, "d1-ties6-p1", par_build, 1, Cfg::new(conc(6, 6, -16, 15)).leaf(1, 1).par(1, 3).sched(1, 0, true), f, 20);
            scenario!(v, "d1-n3-p1", par_build, 1, Cfg::new(sym(3, -4, 3)).leaf(1, 1).par(1, 2).sched(1, 0, false), f, 20);
            scenario!(v, "d2-wide-p0", par_build, 2, Cfg::new(conc(60, 0, -100, 100)).q(3, 4).leaf(8, 8).par(2, 3).sched(0, 0, false), f, 20);
            only!(v, from, "sched");
        }
        "C08" => {
            let f = format!("{BUILD}, build_nodes_parallel, {KNN}");
            scenario!(v, "d1-n3-all", everything, 1, Cfg::new(sym(3, -4, 3)).leaf(1, 3), f, 20);
            scenario!(v, "d1-n2-all-par", everything, 1, Cfg::new(sym(2, -4, 3)).leaf(1, 2).par(0, 2), f, 20);
            scenario!(v, "d1-c7-all", everything, 1, Cfg::new(conc(7, 0, -16, 15)).leaf(1, 3), f, 20);
            scenario!(v, "d2-ties7-all", everything, 2, Cfg::new(conc(7, 6, -4, 3)).leaf(1, 3), f, 20);
            scenario!(v, "d2-same9-all", everything, 2, Cfg::new(conc(9, 1, -4, 3)).leaf(1, 3), f, 20);
            scenario!(v, "d2-m5-all", everything, 2, Cfg::new(mixed(5, 1, 0, -4, 3)).leaf(1, 2), f, 20);
            #[cfg(feature = "nodes")]
            {
                use crate::structure::nodes;
                scenario!(v, "d1-n5-nodes", nodes, 1, Cfg::new(sym(5, -4, 3)).leaf(1, 3), f, 10);
                scenario!(v, "d2-n5-nodes", nodes, 2, Cfg::new(sym(5, -4, 3)).leaf(1, 2), f, 10);
                scenario!(v, "d3-n6-nodes", nodes, 3, Cfg::new(sym(6, -4, 3)).leaf(1, 1), f, 10);
                scenario!(v, "d2-n5-nodes-par", nodes, 2, Cfg::new(sym(5, -4, 3)).leaf(1, 2).par(0, 3), f, 10);
                scenario!(v, "d2-m64-nodes", nodes, 2, Cfg::new(mixed(64, 3, 0, -100, 100)).leaf(1, 9), f, 10);
                scenario!(v, "d1-m150k-nodes", nodes, 1, Cfg::new(mixed(150_000, 1, 0, -1_000_000, 1_000_000)).leaf(1, 1), f, 10);
                scenario!(v, "d3-m140k-nodes-par", nodes, 3, Cfg::new(mixed(140_000, 1, 0, -1_000, 1_000)).leaf(1, 1).par(3, 3), f, 10);
                scenario!(v, "d2-m64-ties-nodes", nodes, 2, Cfg::new(mixed(64, 3, 6, -100, 100)).leaf(1, 9), f, 10);
            }
        }
        "C10" => {
            let f = format!("{BUILD}, check_point, Tree::new_parallel");
            ieee!(v, "d1-n3-f64", build_any, 1, 11, 53, Cfg::new(sym(3, 0, 0)).leaf(1, 2), f, 10);
            ieee!(v, "d1-n3-f32", build_any, 1, 8, 24, Cfg::new(sym(3, 0, 0)).leaf(1, 2), f, 10);
            ieee!(v, "d2-n2-f64", build_any, 2, 11, 53, Cfg::new(sym(2, 0, 0)).leaf(1, 1), f, 10);
            ieee!(v, "d3-n2-f32", build_any, 3, 8, 24, Cfg::new(sym(2, 0, 0)).leaf(0, 2), f, 10);
            ieee!(v, "d2-n40-one-f64", build_one_any, 2, 11, 53, Cfg::new(sym(40, 0, 0)).leaf(1, 1), f, 10);
            ieee!(v, "d3-n25-one-f32", build_one_any, 3, 8, 24, Cfg::new(sym(25, 0, 0)).leaf(4, 4), f, 10);
            ieee!(v, "d2-n40-one-par", build_one_any, 2, 11, 53, Cfg::new(sym(40, 0, 0)).leaf(1, 1).par(2, 2), f, 10);
            ieee!(v, "d1-many-one-f64", build_one_any, 1, 11, 53, Cfg::new(sym(1, 0, 0)).leaf(16, 16).sizes(&[3_000, 70_000, 120_000]), f, 10);
            ieee!(v, "d3-many-one-f32", build_one_any, 3, 8, 24, Cfg::new(sym(1, 0, 0)).leaf(1, 1).sizes(&[257, 1_025, 70_000]), f, 10);
            ieee!(v, "d2-many-one-par", build_one_any, 2, 11, 53, Cfg::new(sym(1, 0, 0)).leaf(16, 16).sizes(&[3_000, 70_000]).par(3, 3), f, 10);
            ieee!(v, "d7-n3-one-f64", build_one_any, 7, 11, 53, Cfg::new(sym(3, 0, 0)).leaf(1, 1), f, 10);
            ieee!(v, "d17-n2-one-par-f32", build_one_any, 17, 8, 24, Cfg::new(sym(2, 0, 0)).leaf(1, 1).par(1, 1), f, 10);
        }
        "C11" => {
            let f = format!("check_point_return, check_data, {NN}, {KNN}");
            ieee!(v, "d1-n2-some-f64", query_any, 1, 11, 53, Cfg::new(sym(2, 0, 0)).leaf(1, 1).k(0, 2).nq(3).api(1), f, 10);
            ieee!(v, "d2-n2-some-f32", query_any, 2, 8, 24, Cfg::new(sym(2, 0, 0)).leaf(1, 2).k(1, 1).nq(2).api(1), f, 10);
            ieee!(v, "d3-n1-some-f64", query_any, 3, 11, 53, Cfg::new(sym(1, 0, 0)).leaf(1, 1).k(1, 1).nq(1).api(1), f, 10);
            ieee!(v, "d1-n2-e3m2", query_any, 1, 3, 3, Cfg::new(sym(2, 0, 0)).leaf(2, 2).k(1, 1).nq(1), f, 10);
            ieee!(v, "d1-n1-e4m3", query_any, 1, 4, 4, Cfg::new(sym(1, 0, 0)).leaf(1, 1).k(0, 1).nq(2), f, 10);
            ieee!(v, "d2-n1-e3m2", query_any, 2, 3, 3, Cfg::new(sym(1, 0, 0)).leaf(1, 1).k(1, 1).nq(1), f, 10);
            ieee!(v, "d1-many-f64", query_any, 1, 11, 53, Cfg::new(sym(2, 0, 0)).leaf(1, 1).k(1, 1).sizes(&[20, 130, 1_030, 3_000, 70_000]).api(1), f, 10);
            ieee!(v, "d2-many-f32", query_any, 2, 8, 24, Cfg::new(sym(2, 0, 0)).leaf(1, 1).k(1, 1).sizes(&[33, 260, 2_050]).api(1), f, 10);
        }
        "C12" => {
            let f = format!("{BUILD}, with_boxsize");
            ieee!(v, "d1-n2-f64", box_any, 1, 11, 53, Cfg::new(sym(2, 0, 0)).leaf(1, 2), f, 10);
            ieee!(v, "d1-n3-f32", box_any, 1, 8, 24, Cfg::new(sym(3, 0, 0)).leaf(1, 3), f, 10);
            ieee!(v, "d2-n1-f64", box_any, 2, 11, 53, Cfg::new(sym(1, 0, 0)).leaf(0, 1), f, 10);
            ieee!(v, "d2-n2-f32", box_any, 2, 8, 24, Cfg::new(sym(2, 0, 0)).leaf(1, 2), f, 10);
            ieee!(v, "d3-n1-f64", box_any, 3, 11, 53, Cfg::new(sym(1, 0, 0)).leaf(1, 1), f, 10);
            ieee!(v, "d2-n2-par", box_any, 2, 8, 24, Cfg::new(sym(2, 0, 0)).leaf(1, 2).par(0, 1), f, 10);
            ieee!(v, "d2-n40-one-f64", box_one_any, 2, 11, 53, Cfg::new(sym(1, 0, 0)).leaf(4, 4).sizes(&[20, 40]), f, 10);
            ieee!(v, "d1-many-one-f32", box_one_any, 1, 8, 24, Cfg::new(sym(1, 0, 0)).leaf(16, 16).sizes(&[1_030]), f, 10);
            ieee!(v, "d3-many-one-par", box_one_any, 3, 8, 24, Cfg::new(sym(1, 0, 0)).leaf(16, 16).sizes(&[300]).par(2, 2), f, 10);
            let f = format!("{BUILD}, with_boxsize, query_nearest_k_periodic");
            scenario!(v, "d1-twice", box_twice, 1, Cfg::new(conc(2, 0, 0, 6)).boxed(4, 9).leaf(1, 2).k(1, 2).q(0, 9), f, 10);
            scenario!(v, "d2-twice", box_twice, 2, Cfg::new(conc(2, 0, 0, 4)).boxed(4, 5).leaf(1, 1).k(1, 1).q(0, 5), f, 10);
        }
        "C13" => {
            let f = format!("{BUILD}, {KNN}");
            #[cfg(feature = "small")]
            {
                use crate::structure::nodes;
                #[cfg(feature = "median")]
                {
                    use crate::median::split;
                    // k.1: chunk sizes up to this one, and the default
                    scenario!(v, "split-d1-n5", split, 1, Cfg::new(sym(5, -4, 3)).k(0, 0), "moms_seq", 5);
                    scenario!(v, "split-d1-n6", split, 1, Cfg::new(sym(6, -4, 3)).k(0, 4), "moms_seq", 60);
                    scenario!(v, "split-d1-n7", split, 1, Cfg::new(mixed(7, 5, 6, -4, 3)).k(0, 7), "moms_seq", 20);
                    scenario!(v, "split-d2-m9", split, 2, Cfg::new(mixed(9, 4, 6, -8, 7)).k(0, 9), "moms_seq", 20);
                    scenario!(v, "split-d1-m20-ties", split, 1, Cfg::new(mixed(20, 4, 6, -8, 7)).k(0, 11), "moms_seq", 20);
                    scenario!(v, "split-d1-m24-same", split, 1, Cfg::new(mixed(24, 4, 1, -8, 7)).k(0, 6), "moms_seq", 20);
                    scenario!(v, "split-d1-m50-rare", split, 1, Cfg::new(mixed(50, 3, 9, -100, 100)).k(0, 9), "moms_seq", 20);
                    scenario!(v, "split-d1-m40-two", split, 1, Cfg::new(mixed(40, 3, 2, -100, 100)).k(0, 9), "moms_seq", 20);
                }
                scenario!(v, "d1-n6-small", nodes, 1, Cfg::new(sym(6, -4, 3)).leaf(5, 5), f, 60);
                scenario!(v, "d1-n7-small", nodes, 1, Cfg::new(sym(7, -4, 3)).leaf(1, 1), f, 20);
                scenario!(v, "d2-n6-small", nodes, 2, Cfg::new(mixed(6, 4, 6, -4, 3)).leaf(5, 5), f, 20);
                scenario!(v, "d1-m11-small", nodes, 1, Cfg::new(mixed(11, 4, 0, -8, 7)).leaf(5, 5), f, 20);
                scenario!(v, "d1-m13-ties-small", nodes, 1, Cfg::new(mixed(13, 4, 6, -8, 7)).leaf(5, 5), f, 20);
                scenario!(v, "d1-m16-two-small", nodes, 1, Cfg::new(mixed(16, 4, 2, -8, 7)).leaf(1, 1), f, 20);
                scenario!(v, "d1-m12-same-small", nodes, 1, Cfg::new(mixed(12, 5, 1, -8, 7)).leaf(1, 1), f, 20);
                scenario!(v, "d2-m15-small", nodes, 2, Cfg::new(mixed(15, 2, 0, -8, 7)).leaf(1, 2), f, 20);
                scenario!(v, "d1-m40-rare-small", nodes, 1, Cfg::new(mixed(40, 3, 9, -100, 100)).leaf(4, 4), f, 20);
                scenario!(v, "d1-m60-sorted-small", nodes, 1, Cfg::new(mixed(60, 2, 3, -100, 100)).leaf(4, 4), f, 20);
                scenario!(v, "d3-m24-par-small", nodes, 3, Cfg::new(mixed(24, 2, 6, -8, 7)).leaf(3, 3).par(0, 2), f, 20);
                scenario!(v, "d1-n6-small-knn", knn, 1, Cfg::new(mixed(6, 4, 6, -3, 2)).leaf(1, 1).k(2, 2), f, 20);
                scenario!(v, "d1-m9-small-nn", nn1, 1, Cfg::new(mixed(9, 2, 6, -8, 7)).leaf(1, 2), f, 20);
                return v;
            }
            #[allow(unreachable_code)]
            #[cfg(feature = "nodes")]
            {
                use crate::structure::balanced;
                scenario!(v, "d1-100k-nodes", balanced, 1, Cfg::new(mixed(100_003, 1, 0, -500_000, 500_000)).leaf(20_000, 20_000), f, 20);
                scenario!(v, "d2-120k-nodes", balanced, 2, Cfg::new(mixed(120_000, 1, 0, -50_000, 50_000)).leaf(20_000, 20_000), f, 20);
                scenario!(v, "d1-ties-100k-nodes", balanced, 1, Cfg::new(mixed(100_001, 1, 6, -500, 500)).leaf(20_000, 20_000), f, 20);
                scenario!(v, "d1-two-100k-nodes", balanced, 1, Cfg::new(mixed(100_001, 1, 2, -500, 500)).leaf(20_000, 20_000), f, 20);
                scenario!(v, "d2-same-100k-nodes", balanced, 2, Cfg::new(mixed(100_001, 1, 1, -500, 500)).leaf(20_000, 20_000), f, 20);
                scenario!(v, "d1-sorted-100k-nodes", balanced, 1, Cfg::new(mixed(100_001, 1, 3, -500_000, 500_000)).leaf(20_000, 20_000), f, 20);
                scenario!(v, "d1-reversed-200k-nodes", balanced, 1, Cfg::new(mixed(200_003, 1, 5, -500_000, 500_000)).leaf(30_000, 30_000), f, 20);
                scenario!(v, "d1-rare-100k-nodes", balanced, 1, Cfg::new(mixed(100_004, 1, 9, -500_000, 500_000)).leaf(20_000, 20_000), f, 20);
                scenario!(v, "d2-rare-130k-nodes", balanced, 2, Cfg::new(mixed(130_000, 1, 9, -500, 500)).leaf(20_000, 20_000), f, 20);
                scenario!(v, "d1-210k-par-nodes", balanced, 1, Cfg::new(mixed(210_003, 1, 0, -500_000, 500_000)).leaf(40_000, 40_000).par(2, 2), f, 20);
            }
            #[cfg(not(feature = "nodes"))]
            {
            scenario!(v, "d1-100k", large, 1, Cfg::new(mixed(100_003, 1, 0, -500_000, 500_000)).leaf(20_000, 20_000).k(3, 3).extra(1), f, 50);
            scenario!(v, "d2-100k", large, 2, Cfg::new(mixed(100_000, 1, 0, -50_000, 50_000)).leaf(30_000, 30_000).k(3, 3).extra(1), f, 50);
            scenario!(v, "d1-ties-100k", large, 1, Cfg::new(mixed(100_001, 1, 6, -500, 500)).leaf(20_000, 20_000).k(3, 3).extra(1), f, 50);
            scenario!(v, "d1-two-100k", large, 1, Cfg::new(mixed(100_001, 1, 2, -500, 500)).leaf(20_000, 20_000).k(3, 3).extra(1), f, 50);
            scenario!(v, "d2-same-100k", large, 2, Cfg::new(mixed(100_001, 1, 1, -500, 500)).leaf(20_000, 20_000).k(3, 3).extra(1), f, 50);
            scenario!(v, "d1-sorted-100k", large, 1, Cfg::new(mixed(100_001, 1, 3, -500_000, 500_000)).leaf(20_000, 20_000).k(3, 3).extra(1), f, 50);
            scenario!(v, "d1-reversed-200k", large, 1, Cfg::new(mixed(200_003, 1, 5, -500_000, 500_000)).leaf(30_000, 30_000).k(3, 3).extra(1), f, 50);
            }
        }
        "C14" => {
            let f = format!("{BUILD}, {NN}, {KNN}");
            ieee!(v, "nn-d1-n2-e3m2", nn1, 1, 3, 3, Cfg::new(sym(2, 0, 0)).leaf(1, 2), f, 6);
            ieee!(v, "nn-d1-n3-e3m2", nn1, 1, 3, 3, Cfg::new(sym(3, 0, 0)).leaf(1, 1), f, 24);
            ieee!(v, "nn-d2-n2-e2m2", nn1, 2, 2, 3, Cfg::new(sym(2, 0, 0)).leaf(1, 1), f, 100);
            ieee!(v, "nn-d2-n3-e2m2", nn1, 2, 2, 3, Cfg::new(sym(3, 0, 0)).leaf(1, 1), f, 100);
            ieee!(v, "nn-d1-n2-e4m3", nn1, 1, 4, 4, Cfg::new(sym(2, 0, 0)).leaf(1, 1), f, 12);
            ieee!(v, "nn-d1-n2-e8m2", nn1, 1, 8, 3, Cfg::new(sym(2, 0, 0)).leaf(1, 1), f, 12);
            ieee!(v, "knn-d1-n2-e8m2", knn, 1, 8, 3, Cfg::new(sym(2, 0, 0)).leaf(1, 1).k(1, 2), f, 12);
            ieee!(v, "nn-d2-n1-e8m2", nn1, 2, 8, 3, Cfg::new(sym(1, 0, 0)).leaf(1, 1), f, 12);
            ieee!(v, "nn-d1-n1-f32", nn1, 1, 8, 24, Cfg::new(sym(1, 0, 0)).leaf(1, 2), f, 3);
            ieee!(v, "knn-d1-n2-e4m3", knn, 1, 4, 4, Cfg::new(sym(2, 0, 0)).leaf(1, 2).k(1, 2), f, 28);
            ieee!(v, "knn-d1-n3-e2m2", knn, 1, 2, 3, Cfg::new(sym(3, 0, 0)).leaf(1, 1).k(2, 3), f, 50);
            ieee!(v, "knn-d1-n4-e2m1", knn, 1, 2, 2, Cfg::new(sym(4, 0, 0)).leaf(1, 1).k(2, 3), f, 100);
            ieee!(v, "knn-d2-n2-e2m2", knn, 2, 2, 3, Cfg::new(sym(2, 0, 0)).leaf(1, 1).k(1, 2), f, 100);
            if thorough {
                ieee!(v, "nn-d1-n4-e2m2", nn1, 1, 2, 3, Cfg::new(sym(4, 0, 0)).leaf(1, 1), f, 100);
                ieee!(v, "nn-d1-n4-e2m1", nn1, 1, 2, 2, Cfg::new(sym(4, 0, 0)).leaf(1, 1), f, 100);
                ieee!(v, "nn-d2-n2-e2m1", nn1, 2, 2, 2, Cfg::new(sym(2, 0, 0)).leaf(1, 2), f, 100);
                ieee!(v, "nn-d2-n2-e3m2", nn1, 2, 3, 3, Cfg::new(sym(2, 0, 0)).leaf(1, 1), f, 100);
                ieee!(v, "nn-d1-n2-e4m4", nn1, 1, 4, 5, Cfg::new(sym(2, 0, 0)).leaf(1, 1), f, 100);
                ieee!(v, "nn-d2-n1-f64", nn1, 2, 11, 53, Cfg::new(sym(1, 0, 0)).leaf(1, 2), f, 100);
                ieee!(v, "knn-d1-n2-e3m2", knn, 1, 3, 3, Cfg::new(sym(2, 0, 0)).leaf(1, 2).k(1, 2), f, 100);
                ieee!(v, "knn-d1-n3-e3m2", knn, 1, 3, 3, Cfg::new(sym(3, 0, 0)).leaf(1, 1).k(2, 3), f, 100);
                ieee!(v, "knn-d2-n3-e2m1", knn, 2, 2, 2, Cfg::new(sym(3, 0, 0)).leaf(1, 1).k(1, 2), f, 100);
                ieee!(v, "knn-d1-n2-e5m5", knn, 1, 5, 6, Cfg::new(sym(2, 0, 0)).leaf(1, 1).k(1, 2), f, 100);
            }
        }
        "C15" => {
            let f = format!("{BUILD}, with_boxsize, {NN}, {KNN}, query_nearest_periodic, query_nearest_k_periodic, query_nearest_k_parallel, query_nearest_k_parallel_axis, under other cargo features");
            scenario!(v, "nn-d1-n3", nn1, 1, Cfg::new(sym(3, -8, 7)).leaf(1, 3), f, 2);
            scenario!(v, "nn-d2-c10", nn1, 2, Cfg::new(conc(10, 0, -16, 15)).leaf(1, 2), f, 8);
            scenario!(v, "knn-d1-n3", knn, 1, Cfg::new(sym(3, -8, 7)).leaf(1, 2).k(0, 4), f, 4);
            scenario!(v, "knn-d2-c8", knn, 2, Cfg::new(conc(8, 0, -16, 15)).leaf(1, 2).k(2, 3), f, 9);
            scenario!(v, "pnn-d1-n2", pnn1, 1, Cfg::new(sym(2, 0, 8)).boxed(8, 8).leaf(1, 2), f, 5);
            scenario!(v, "pnn-d2-c3", pnn1, 2, Cfg::new(conc(3, 0, 0, 16)).boxed(16, 16).leaf(1, 1), f, 15);
            // points that share some coordinates
            scenario!(v, "pnn-d2-n2", pnn1, 2, Cfg::new(sym(2, 0, 3)).boxed(4, 4).leaf(1, 1), f, 8);
            scenario!(v, "pnn-d2-ties8", pnn1, 2, Cfg::new(conc(8, 6, 0, 15)).boxed(16, 16).leaf(1, 2), f, 8);
            scenario!(v, "pknn-d2-ties5", pknn, 2, Cfg::new(conc(5, 6, 0, 15)).boxed(16, 16).leaf(1, 1).k(2, 2), f, 8);
            scenario!(v, "nn-d2-ties12", nn1, 2, Cfg::new(conc(12, 6, -16, 15)).leaf(1, 2), f, 5);
            scenario!(v, "knn-d2-ties8", knn, 2, Cfg::new(conc(8, 6, -16, 15)).leaf(1, 2).k(2, 3), f, 5);
            scenario!(v, "pknn-d1-n2", pknn, 1, Cfg::new(sym(2, 0, 8)).boxed(8, 8).leaf(1, 2).k(1, 3), f, 9);
            scenario!(v, "pknn-d2-c3", pknn, 2, Cfg::new(conc(3, 0, 0, 16)).boxed(16, 16).leaf(1, 1).k(2, 2), f, 16);
            scenario!(v, "everything-d1-n3", everything, 1, Cfg::new(sym(3, -4, 3)).leaf(1, 2), f, 5);
            ieee!(v, "nn-d1-n2-e3m2", nn1, 1, 3, 3, Cfg::new(sym(2, 0, 0)).leaf(1, 2), f, 10);
            #[cfg(all(feature = "parallel", feature = "no-position"))]
            {
                scenario!(v, "batch-d1-c6", batch, 1, Cfg::new(conc(6, 0, -16, 15)).leaf(1, 2).k(1, 3).nq(1).extra(2).api(9), f, 5);
                scenario!(v, "axis-d1-n3", axis, 1, Cfg::new(sym(3, -8, 7)).leaf(1, 1).k(1, 3).axis(0, 1), f, 5);
                scenario!(v, "axis-d2-c6", axis, 2, Cfg::new(conc(6, 0, -16, 15)).leaf(1, 2).k(2, 3).axis(0, 1), f, 5);
            }
            scenario!(v, "nn-d2-wide", nn1, 2, Cfg::new(conc(300, 0, -100, 100)).q(3, 10).leaf(31, 32), f, 2);
            scenario!(v, "nn-d3-wide", nn1, 3, Cfg::new(conc(60, 0, -30, 30)).q(4, 7).leaf(1, 1), f, 2);
            scenario!(v, "nn-d9-wide", nn1, 9, Cfg::new(conc(12, 0, -8, 8)).q(0, 1).leaf(1, 2), f, 2);
            scenario!(v, "knn-d1-wide", knn, 1, Cfg::new(conc(300, 0, -1000, 1000)).q(-8, 8).leaf(32, 32).k(16, 17), f, 2);
            scenario!(v, "knn-d2-wide", knn, 2, Cfg::new(conc(150, 0, -100, 100)).q(3, 4).leaf(8, 8).k(32, 33), f, 2);
            scenario!(v, "knn-d3-wide", knn, 3, Cfg::new(conc(100, 0, -30, 30)).q(-2, -1).leaf(16, 16).k(8, 9), f, 2);
            scenario!(v, "pnn-d2-wide", pnn1, 2, Cfg::new(conc(60, 0, 0, 100)).boxed(100, 100).q(97, 100).leaf(8, 8), f, 2);
            scenario!(v, "pknn-d2-wide", pknn, 2, Cfg::new(conc(60, 0, 0, 100)).boxed(100, 100).q(0, 2).leaf(8, 8).k(5, 6), f, 2);
            #[cfg(all(feature = "parallel", feature = "no-position"))]
            {
                scenario!(v, "batch-d1-again", batch, 1, Cfg::new(conc(5, 0, -8, 7)).q(-3, 3).leaf(1, 2).k(1, 2).nq(1).extra(2).again().api(9), f, 2);
                scenario!(v, "batch-d2-wide", batch, 2, Cfg::new(conc(150, 0, -100, 100)).q(3, 5).leaf(16, 16).k(9, 9).nq(1).extra(40).api(9), f, 2);
                scenario!(v, "axis-d2-wide", axis, 2, Cfg::new(conc(150, 0, -100, 100)).q(3, 4).leaf(16, 16).k(9, 9).axis(0, 1).nq(1).extra(20), f, 2);
            }
        }
        "C17" => {
            let f = format!("Tree::new, Tree::new_parallel, size_of_tree, {NN}, {KNN}");
            scenario!(v, "d1-n2", degenerate, 1, Cfg::new(sym(2, -2, 2)), f, 10);
            scenario!(v, "d2-n1", degenerate, 2, Cfg::new(sym(1, -2, 2)), f, 10);
            scenario!(v, "d1-n4-same", degenerate, 1, Cfg::new(sym(4, -1, 1)).q(-1, 1), f, 10);
            scenario!(v, "d1-deep", deep, 1, Cfg::new(mixed(20_000, 1, 0, -500_000, 500_000)).leaf(1, 1).k(19_999, 20_000), f, 10);
            scenario!(v, "d2-deep", deep, 2, Cfg::new(mixed(20_000, 1, 0, -5_000, 5_000)).leaf(1, 1).k(19_999, 20_000), f, 10);
            scenario!(v, "d2-deep-same", deep, 2, Cfg::new(mixed(20_000, 1, 1, -5_000, 5_000)).leaf(1, 1).k(19_999, 20_000), f, 10);
            scenario!(v, "d1-n2-box", degenerate, 1, Cfg::new(sym(2, 0, 1)).boxed(0, 1).q(0, 1), f, 10);
            scenario!(v, "d2-n1-box", degenerate, 2, Cfg::new(sym(1, 0, 1)).boxed(0, 1).q(0, 1), f, 10);
            scenario!(v, "d1-c4-box", degenerate, 1, Cfg::new(conc(4, 0, 0, 4)).boxed(4, 4).q(0, 4), f, 10);
        }
        "C18" => {
            let f = format!("{BUILD}, {NN}, {KNN}");
            scenario!(v, "d1-n3", again, 1, Cfg::new(sym(3, -4, 3)).leaf(1, 2).k(1, 2), f, 10);
            scenario!(v, "d1-c6", again, 1, Cfg::new(conc(6, 0, -16, 15)).leaf(1, 1).k(1, 3), f, 10);
            scenario!(v, "d2-c5", again, 2, Cfg::new(conc(5, 0, -8, 7)).leaf(1, 1).k(2, 2), f, 10);
            scenario!(v, "d1-wide", again, 1, Cfg::new(conc(120, 0, -1000, 1000)).q(-8, 8).leaf(16, 16).k(9, 9), f, 10);
            scenario!(v, "d2-wide", again, 2, Cfg::new(conc(60, 0, -100, 100)).q(3, 4).leaf(4, 4).k(3, 3), f, 10);
            scenario!(v, "d1-p3", again, 1, Cfg::new(conc(3, 0, 0, 16)).boxed(16, 16).q(0, 16).leaf(1, 1).k(1, 2), f, 10);
            scenario!(v, "d2-p2", again, 2, Cfg::new(conc(2, 0, 0, 8)).boxed(8, 8).q(6, 8).leaf(1, 1).k(2, 2), f, 10);
            scenario!(v, "d1-after-300", again, 1, Cfg::new(conc(6, 0, -16, 15)).leaf(1, 1).k(1, 2).extra(300), f, 10);
            scenario!(v, "d2-after-70k", again, 2, Cfg::new(conc(4, 0, -8, 7)).q(0, 1).leaf(1, 1).k(2, 2).extra(70_000), f, 10);
        }
        "C19" => {
            #[cfg(feature = "distance")]
            {
                use crate::distance::*;
                let f = "squared_euclidean, squared_euclidean_axis";
                scenario!(v, "distances-d1", distances, 1, Cfg::new(sym(0, -1000, 1000)), f, 2);
                scenario!(v, "distances-d2", distances, 2, Cfg::new(sym(0, -1000, 1000)), f, 2);
                scenario!(v, "distances-d3", distances, 3, Cfg::new(sym(0, -1000, 1000)), f, 2);
                scenario!(v, "distances-d5", distances, 5, Cfg::new(sym(0, -1000, 1000)), f, 2);
                scenario!(v, "distances-d8", distances, 8, Cfg::new(sym(0, -1000, 1000)), f, 2);
                scenario!(v, "distances-d17", distances, 17, Cfg::new(sym(0, -1000, 1000)), f, 2);
                let f = "calc_dist_sq_to_space, squared_euclidean";
                scenario!(v, "space-d1", space, 1, Cfg::new(sym(0, -100, 100)), f, 10);
                scenario!(v, "space-d2", space, 2, Cfg::new(sym(0, -16, 15)), f, 20);
                scenario!(v, "space-d3", space, 3, Cfg::new(sym(0, -4, 3)), f, 20);
                scenario!(v, "space-d4", space, 4, Cfg::new(sym(0, -2, 2)), f, 20);
                scenario!(v, "space-d5", space, 5, Cfg::new(sym(0, 0, 1)).q(-1, 1), f, 20);
                let f = "new_best, new_best_short, squared_euclidean";
                scenario!(v, "best-d1", best, 1, Cfg::new(sym(4, -8, 7)).k(1, 200), f, 10);
                scenario!(v, "best-d2", best, 2, Cfg::new(sym(3, -8, 7)).k(1, 200), f, 20);
                scenario!(v, "best-d3", best, 3, Cfg::new(sym(3, -4, 3)).k(1, 100), f, 20);
                scenario!(v, "best-d5", best, 5, Cfg::new(sym(2, -4, 3)).k(1, 300), f, 20);
                scenario!(v, "best-d9", best, 9, Cfg::new(mixed(3, 1, 0, -4, 3)).q(0, 1).k(1, 300), f, 20);
                let f = "squared_euclidean, squared_euclidean_axis, calc_dist_sq_to_space";
                for (eb, sb) in [(3, 3), (4, 4), (5, 6), (8, 24), (11, 53)] {
                    ieee!(v, format!("parts-d1-f{eb}_{sb}"), rounded, 1, eb, sb, Cfg::new(sym(0, 0, 0)), f, 10);
                }
                for (eb, sb) in [(3, 3), (4, 4), (3, 5)] {
                    ieee!(v, format!("box-d1-f{eb}_{sb}"), rounded, 1, eb, sb, Cfg::new(sym(0, 0, 0)).api(1), f, 10);
                }
                for (eb, sb) in [(8, 24), (11, 53)] {
                    ieee!(v, format!("box-d1-f{eb}_{sb}"), rounded, 1, eb, sb, Cfg::new(sym(0, 0, 0)).api(2), f, 10);
                    v.last_mut().unwrap().bounds += "; the query and the box from a list of nine values";
                }
                ieee!(v, "parts-d2-f3_3", rounded, 2, 3, 3, Cfg::new(sym(0, 0, 0)), f, 20);
                ieee!(v, "parts-d2-f3_4", rounded, 2, 3, 4, Cfg::new(sym(0, 0, 0)), f, 20);
                ieee!(v, "box-d2-f3_3", rounded, 2, 3, 3, Cfg::new(sym(0, 0, 0)).api(1), f, 20);
                ieee!(v, "parts-d3-f3_3", rounded, 3, 3, 3, Cfg::new(sym(0, 0, 0)), f, 20);
            }
            if cfg!(not(feature = "distance")) {
                let f = format!("{BUILD}, {NN}, {KNN}");
                scenario!(v, "d1-n4", nn1, 1, Cfg::new(sym(4, -8, 7)).leaf(1, 5), f, 10);
                scenario!(v, "d2-c9", nn1, 2, Cfg::new(conc(9, 0, -16, 15)).leaf(1, 2), f, 10);
                scenario!(v, "knn-d2-c7", knn, 2, Cfg::new(conc(7, 0, -16, 15)).leaf(1, 2).k(2, 2), f, 10);
            }
        }
        _ => {}
    }
    v
}
