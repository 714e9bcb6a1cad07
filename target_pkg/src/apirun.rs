//! Drives the library's public API as told by a script, from several threads sharing the graphs.
//!
//! `apirun SCRIPT`, one command per line:
//!   load NAME CFG              parse and finalize the graph of this config
//!   dump NAME                  everything the accessors of the graph tell
//!   rcfg NAME ALGO A0,A1,.. S0,S1,..     a routing-config (ALGO: d | ch; alphas; tolerated scales)
//!   q TID GRAPH RCFG SRC DST   thread TID asks for the best path (node-ids)
//!   x TID GRAPH RCFG SRC DST   thread TID explorates
//!   run                        all threads work off their queries concurrently; then the results
//!                              (a thread's routing objects stay the same over several runs)
//!   drop NAME                  frees the graph
//!   edit OLD NEW E,M,V ..      the graph OLD gets these values (edge, metric) and is called NEW
use osmgraphing::{
    configs::{
        self,
        routing::{Config as RoutingConfig, RoutingAlgo},
    },
    io::network::graph::Parser,
    network::{EdgeIdx, Graph, NodeIdx},
    routing::{
        dijkstra::{self, Dijkstra},
        explorating::ConvexHullExplorator,
        paths::Path,
    },
};
use std::{
    collections::BTreeMap,
    fmt::Write as _,
    io::Write as _,
    sync::{Arc, Barrier},
    thread,
};

fn nums(s: &str) -> Vec<f64> {
    s.split(',')
        .map(|x| {
            if x == "inf" {
                std::f64::INFINITY
            } else {
                x.parse().expect("number")
            }
        })
        .collect()
}

fn dump(name: &str, g: &Graph, out: &mut String) {
    let nodes = g.nodes();
    let fwd = g.fwd_edges();
    let bwd = g.bwd_edges();
    let metrics = g.metrics();
    writeln!(
        out,
        "graph {} {} {} {} {}",
        name,
        nodes.count(),
        fwd.count(),
        bwd.count(),
        metrics.dim()
    )
    .unwrap();
    for i in 0..metrics.dim() {
        if let Some(m) = metrics.mean(osmgraphing::network::MetricIdx(i)) {
            writeln!(out, "mean {} {:?}", i, m).unwrap();
        }
    }
    for n in &nodes {
        let c = nodes.coord(n);
        let back = match nodes.idx_from(nodes.id(n)) {
            Ok(i) => *i as i64,
            Err(_) => -1,
        };
        writeln!(
            out,
            "n {} {} {:?} {:?} {} {}",
            *n,
            nodes.id(n),
            c.lat,
            c.lon,
            nodes.level(n),
            back
        )
        .unwrap();
    }
    for e in 0..fwd.count() {
        let e = EdgeIdx(e);
        let id = match fwd.try_id(e) {
            Some(id) => format!("{}", id),
            None => "-".into(),
        };
        let back = match fwd.try_id(e) {
            Some(id) => match fwd.try_idx_from(id) {
                Ok(i) => format!("{}", *i),
                Err(_) => "!".into(),
            },
            None => "-".into(),
        };
        let sc = match fwd.sc_edges(e) {
            Some(sc) => format!("{},{}", *sc[0], *sc[1]),
            None => "-".into(),
        };
        let m: Vec<String> = metrics[e].iter().map(|m| format!("{:?}", m)).collect();
        writeln!(
            out,
            "e {} {} {} {} {} {} {} {}",
            *e,
            id,
            *bwd.dst_idx(e),
            *fwd.dst_idx(e),
            fwd.is_shortcut(e) as u8,
            sc,
            back,
            m.join(",")
        )
        .unwrap();
    }
    for n in &nodes {
        let f: Vec<String> = fwd
            .starting_from(n)
            .map(|h| format!("{}>{}", *h.idx(), *h.dst_idx()))
            .collect();
        let b: Vec<String> = bwd
            .starting_from(n)
            .map(|h| format!("{}>{}", *h.idx(), *h.dst_idx()))
            .collect();
        writeln!(out, "f {} {}", *n, f.join(" ")).unwrap();
        writeln!(out, "b {} {}", *n, b.join(" ")).unwrap();
    }
}

fn show(kind: &str, p: &Path) -> String {
    let e: Vec<String> = p.iter().map(|e| format!("{}", **e)).collect();
    format!(
        "{}:{}:{}:{}",
        kind,
        *p.src_idx(),
        *p.dst_idx(),
        e.join(",")
    )
}
fn costs(p: &Path) -> String {
    let c: Vec<String> = p.costs().iter().map(|c| format!("{:?}", c)).collect();
    c.join(",")
}

#[derive(Clone)]
struct Ask {
    no: usize,
    explore: bool,
    graph: String,
    rcfg: String,
    src: i64,
    dst: i64,
}

fn main() {
    let script = std::fs::read_to_string(std::env::args().nth(1).expect("script")).expect("script");
    let mut graphs: BTreeMap<String, Arc<Graph>> = BTreeMap::new();
    let mut rcfgs: BTreeMap<String, RoutingConfig> = BTreeMap::new();
    let mut asks: BTreeMap<usize, Vec<Ask>> = BTreeMap::new();
    let mut routers: BTreeMap<usize, (Dijkstra, ConvexHullExplorator)> = BTreeMap::new();
    let mut no = 0;
    let mut out = String::new();
    for line in script.lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() {
            continue;
        }
        match w[0] {
            "load" => {
                let res = configs::parsing::Config::try_from_yaml(w[2])
                    .and_then(|cfg| Parser::parse_and_finalize(cfg));
                match res {
                    Ok(g) => {
                        graphs.insert(w[1].into(), Arc::new(g));
                        writeln!(out, "loaded {}", w[1]).unwrap();
                    }
                    Err(e) => writeln!(out, "failed {} {}", w[1], e).unwrap(),
                }
            }
            "drop" => {
                graphs.remove(w[1]);
            }
            "edit" => {
                let mut arc = graphs.remove(w[1]).expect("graph");
                {
                    let g = Arc::get_mut(&mut arc).expect("nobody else uses the graph");
                    let mut metrics = g.metrics_mut();
                    for x in &w[3..] {
                        let x = nums(x);
                        metrics[EdgeIdx(x[0] as usize)][x[1] as usize] = x[2];
                    }
                }
                graphs.insert(w[2].into(), arc);
            }
            "dump" => {
                if let Some(g) = graphs.get(w[1]) {
                    dump(w[1], g, &mut out)
                }
            }
            "rcfg" => {
                rcfgs.insert(
                    w[1].into(),
                    RoutingConfig {
                        route_pairs_file: None,
                        routing_algo: if w[2] == "ch" {
                            RoutingAlgo::CHDijkstra
                        } else {
                            RoutingAlgo::Dijkstra
                        },
                        alphas: nums(w[3]).into_iter().collect(),
                        tolerated_scales: nums(w[4]).into_iter().collect(),
                    },
                );
            }
            "q" | "x" => {
                asks.entry(w[1].parse().expect("tid"))
                    .or_insert_with(Vec::new)
                    .push(Ask {
                        no,
                        explore: w[0] == "x",
                        graph: w[2].into(),
                        rcfg: w[3].into(),
                        src: w[4].parse().expect("src"),
                        dst: w[5].parse().expect("dst"),
                    });
                no += 1;
            }
            "run" => {
                let asks = std::mem::replace(&mut asks, BTreeMap::new());
                let barrier = Arc::new(Barrier::new(asks.len().max(1)));
                let handles: Vec<_> = asks
                    .into_iter()
                    .map(|(tid, asks)| {
                        let (mut dijkstra, mut explorator) = routers
                            .remove(&tid)
                            .unwrap_or_else(|| (Dijkstra::new(), ConvexHullExplorator::new()));
                        let (graphs, rcfgs) = (graphs.clone(), rcfgs.clone());
                        let barrier = Arc::clone(&barrier);
                        thread::spawn(move || {
                            barrier.wait();
                            let mut res = Vec::new();
                            for ask in asks {
                                let g = &graphs[&ask.graph];
                                let idx = |id: i64| -> NodeIdx {
                                    g.nodes().idx_from(id).expect("node")
                                };
                                let query = dijkstra::Query {
                                    src_idx: idx(ask.src),
                                    dst_idx: idx(ask.dst),
                                    graph: g,
                                    routing_cfg: &rcfgs[&ask.rcfg],
                                };
                                let mut line = format!("r {}", ask.no);
                                if ask.explore {
                                    for p in explorator.fully_explorate(query, &mut dijkstra) {
                                        let raw = show("raw", &p);
                                        let p = p.flatten(g);
                                        write!(line, " {} {} {}", raw, show("flat", &p), costs(&p))
                                            .unwrap();
                                    }
                                } else if let Some(p) = dijkstra.compute_best_path(query) {
                                    let raw = show("raw", &p);
                                    let p = p.flatten(g);
                                    write!(line, " {} {} {}", raw, show("flat", &p), costs(&p))
                                        .unwrap();
                                }
                                res.push(line);
                            }
                            (tid, dijkstra, explorator, res)
                        })
                    })
                    .collect();
                for h in handles {
                    let (tid, dijkstra, explorator, res) = h.join().expect("thread");
                    routers.insert(tid, (dijkstra, explorator));
                    for l in res {
                        writeln!(out, "{}", l).unwrap();
                    }
                }
            }
            _ => panic!("bad command {}", line),
        }
    }
    std::io::stdout().write_all(out.as_bytes()).expect("stdout");
    println!("end");
}
